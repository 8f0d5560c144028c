#ifndef OXSX_VERIF_TFILE
#define OXSX_VERIF_TFILE
#include <TObject.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
class TFile
{
public:
    typedef std::map<std::string, std::shared_ptr<TObject>> Contents;
    static std::map<std::string, Contents> &Disk()
    {
        static std::map<std::string, Contents> d;
        return d;
    }
    static std::string &Current()
    {
        static std::string s;
        return s;
    }
    static int &Open()
    {
        static int n = 0;
        return n;
    }
    TFile(const char *name, const char *mode = "") : fName(name)
    {
        if (std::string(mode) == "RECREATE")
            Disk()[fName].clear();
        fZombie = !Disk().count(fName);
        Open()++;
        cd();
    }
    ~TFile()
    {
        for (TObject *o : fOwned)
            delete o;
        Open()--;
    }
    TFile(const TFile &) = delete;
    bool IsZombie() const { return fZombie; }
    void cd() { Current() = fName; }
    void Close()
    {
        for (TObject *o : fOwned)
            delete o;
        fOwned.clear();
    }
    TObject *Get(const char *n)
    {
        auto f = Disk().find(fName);
        if (f == Disk().end() || !f->second.count(n))
            return nullptr;
        fOwned.push_back(f->second[n]->CloneObject());
        return fOwned.back();
    }

private:
    std::string fName;
    bool fZombie;
    std::vector<TObject *> fOwned;
};
#endif
