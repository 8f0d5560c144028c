// Configuration files.
// SRC: core config
#include "gens.hpp"
#include <ConfigLoader.hh>
#include <cfloat>
#include <climits>
#include <deque>
#include <fstream>
#include <list>
#include <unistd.h>

const char *pbt::kRule =
    "random configuration texts written from a model (sections, typed fields, comments, blank lines, spacing) and random or damaged "
    "texts, opened in random order with closes in between; non-trivial: at least two sections and three fields, or a text of at "
    "least three lines";

namespace
{
struct Scratch
{
    char dir[32];
    Scratch()
    {
        strcpy(dir, "/tmp/pbtP22XXXXXX");
        if (!mkdtemp(dir))
            throw std::runtime_error("no scratch directory");
    }
    ~Scratch()
    {
        for (auto &f : files)
            unlink(f.c_str());
        rmdir(dir);
    }
    vector<string> files;
    string write(const string &text)
    {
        string p = string(dir) + "/c" + std::to_string(files.size()) + ".ini";
        files.push_back(p);
        std::ofstream(p, std::ios::binary) << text;
        return p;
    }
};
struct Field
{
    int type;
    string text;
    double d = 0;
    long long i = 0;
    vector<double> vd;
    vector<long long> vi;
    vector<string> vs;
};
typedef std::map<string, std::map<string, Field>> Model;

string num(double d)
{
    std::ostringstream o;
    o.precision(17);
    o << d;
    return o.str();
}
string word(Src &s, bool spaces = true)
{
    static const vector<string> w = {"energy", "x", "path/to/file.root", "a=b", "Bi 210", "[odd]", "#5", "12", "true", "-", "\"q\"", ";"};
    string r = s.pick(w);
    if (!spaces)
        for (auto &ch : r)
            if (ch == ' ')
                ch = '_';
    return r;
}
Field genField(Src &s)
{
    Field f;
    f.type = int(s.below(6));
    bool isLong = s.chance(1, 25); // long texts, long lists and long items of lists
    switch (f.type)
    {
    case 0:
        f.i = s.boolean() ? (long long)s.range(-1000, 1000) : s.pick(vector<long long>{INT_MAX, INT_MIN, 0, -1, 65536});
        f.text = std::to_string(f.i);
        break;
    case 1:
        f.d = s.boolean() ? s.dyadic(1000, 6) : s.pick(vector<double>{1e-12, 6.02214076e23, -0.1, 1. / 3, 2.5e-7, 1e-300, -1.7976931348623157e308, 4503599627370497.5});
        f.text = num(f.d);
        break;
    case 2:
        f.text = s.chance(1, 8) ? "" : word(s);
        if (isLong)
            for (size_t n = s.size(20, 400); n-- > 0;)
                f.text += s.pick(vector<string>{"a", "/path", ".root", "x_y", "7"});
        break;
    default:
        for (size_t n = isLong ? s.size(20, 200) : s.size(1, 5); n-- > 0;)
        {
            string t;
            if (f.type == 3)
            {
                f.vd.push_back(s.dyadic(100, 4));
                t = num(f.vd.back());
            }
            else if (f.type == 4)
            {
                f.vi.push_back(s.range(-50, 50));
                t = std::to_string(f.vi.back());
            }
            else
            {
                f.vs.push_back(word(s, false));
                if (isLong && s.chance(1, 4))
                    f.vs.back() += "/" + string(s.size(10, 300), 'p');
                t = f.vs.back();
            }
            f.text += (f.text.empty() ? "" : f.type != 5 && s.boolean() ? ", " : ",") + t;
        }
    }
    return f;
}
Model genModel(Src &s)
{
    static const vector<string> sec = {"summary", "fit", "Bi 210", "systematics.1", "axes", "a", "z"};
    static const vector<string> key = {"min", "max", "n bins", "path", "names", "a", "z.y", "fit"};
    Model m;
    auto p = s.permutation(sec.size());
    for (size_t n = s.size(0, 4), i = 0; i < n; i++)
    {
        auto &f = m[sec[p[i]]];
        auto q = s.permutation(key.size());
        for (size_t k = s.size(0, 5), j = 0; j < k; j++)
            f[key[q[j]]] = genField(s);
    }
    return m;
}
string pad(Src &s) { return s.pick(vector<string>{"", " ", "\t", "   ", " \t "}); }
string junk(Src &s)
{
    string r;
    for (size_t n = s.size(0, 2); n-- > 0;)
        r += s.pick(vector<string>{"\n", "# comment = 5\n", "; [comment]\n", "   \n", "#\n", "\t\n", ";a=b\n"});
    return r;
}
string write(Src &s, const Model &m)
{
    string eol = s.chance(1, 4) ? "\r\n" : "\n";
    string t = junk(s);
    vector<string> names;
    for (auto &x : m)
        names.push_back(x.first);
    for (size_t i : s.permutation(names.size()))
    {
        t += pad(s) + "[" + names[i] + "]" + pad(s) + eol;
        t += junk(s);
        auto &f = m.at(names[i]);
        vector<string> keys;
        for (auto &x : f)
            keys.push_back(x.first);
        for (size_t j : s.permutation(keys.size()))
            t += pad(s) + keys[j] + pad(s) + "=" + pad(s) + f.at(keys[j]).text + pad(s) + eol + junk(s);
    }
    if (s.chance(1, 4) && !t.empty() && t.back() == '\n')
        t.pop_back(); // no newline at the end
    return t;
}
template <class T>
void list(Ctx &c, const string &sec, const string &key, const T &want, const T &prior)
{
    T got = prior;
    ConfigLoader::Load(sec, key, got);
    T w = prior;
    for (auto &x : want)
        w.insert(w.end(), x);
    c.ok("list", got == w, sec + "/" + key);
}
template <class T, class V>
T as(const V &v)
{
    return T(v.begin(), v.end());
}
void check(Ctx &c, Src &s, const Model &m)
{
    std::set<string> names;
    for (auto &x : m)
        names.insert(x.first);
    c.ok("sections", ConfigLoader::ListSections() == names);
    int di = 77;
    string ds = "before";
    vector<int> dv = {3};
    c.throws<ConfigSectionMissing>("missing-section", [&] { ConfigLoader::Load("no such section", "min", di); });
    c.throws<ConfigSectionMissing>("missing-section-string", [&] { ConfigLoader::Load("no such section", "min", ds); });
    c.throws<ConfigSectionMissing>("missing-section-list", [&] { ConfigLoader::Load("no such section", "min", dv); });
    c.ok("missing-adds-nothing", ConfigLoader::ListSections() == names);
    for (auto &x : m)
    {
        c.throws<ConfigFieldMissing>("missing-field", [&] { ConfigLoader::Load(x.first, "no such field", di); });
        c.throws<ConfigFieldMissing>("missing-field-again", [&] { ConfigLoader::Load(x.first, "no such field", ds); });
        c.throws<ConfigFieldMissing>("missing-field-list", [&] { ConfigLoader::Load(x.first, "no such field", dv); });
        for (auto &y : x.second)
        {
            const Field &f = y.second;
            string got = "before";
            ConfigLoader::Load(x.first, y.first, got);
            c.eq("text", got, f.text, x.first + "/" + y.first);
            switch (f.type)
            {
            case 0:
            {
                int i = 0;
                ConfigLoader::Load(x.first, y.first, i);
                c.eq("int", (long long)i, f.i);
                long long ll = 0;
                ConfigLoader::Load(x.first, y.first, ll);
                c.eq("long", ll, f.i);
                double d = 0;
                ConfigLoader::Load(x.first, y.first, d);
                c.eq("int-as-double", d, double(f.i));
                if (f.i >= 0)
                {
                    unsigned u = 0;
                    ConfigLoader::Load(x.first, y.first, u);
                    c.eq("unsigned", (long long)u, f.i);
                    size_t z = 0;
                    ConfigLoader::Load(x.first, y.first, z);
                    c.eq("size", (long long)z, f.i);
                }
                if (f.i == 0 || f.i == 1)
                {
                    bool b = f.i == 0;
                    ConfigLoader::Load(x.first, y.first, b);
                    c.eq("bool", (long long)b, f.i);
                }
                short sh = 0;
                if (f.i > SHRT_MAX || f.i < SHRT_MIN)
                    c.throws<ValueError>("too-big", [&] { ConfigLoader::Load(x.first, y.first, sh); });
                break;
            }
            case 1:
            {
                double d = 0;
                ConfigLoader::Load(x.first, y.first, d);
                c.eq("double", d, f.d);
                break;
            }
            case 2:
                if (f.text.find_first_of("0123456789-") == string::npos)
                {
                    c.throws<ValueError>("not-a-number", [&] { ConfigLoader::Load(x.first, y.first, di); });
                    double d;
                    c.throws<ValueError>("not-a-double", [&] { ConfigLoader::Load(x.first, y.first, d); });
                }
                break;
            case 3:
                list(c, x.first, y.first, f.vd, {});
                list(c, x.first, y.first, f.vd, {-3});
                list(c, x.first, y.first, as<std::list<double>>(f.vd), {});
                list(c, x.first, y.first, as<std::set<double>>(f.vd), {});
                break;
            case 4:
                list(c, x.first, y.first, as<vector<int>>(f.vi), {});
                list(c, x.first, y.first, as<std::deque<int>>(f.vi), {4, 5});
                list(c, x.first, y.first, as<std::set<int>>(f.vi), {1000});
                break;
            default:
                list(c, x.first, y.first, f.vs, {});
                list(c, x.first, y.first, as<std::list<string>>(f.vs), {"there already"});
                list(c, x.first, y.first, as<std::set<string>>(f.vs), {});
            }
        }
    }
    c.eq("no-effect", di, 77);
    c.eq("no-effect-string", ds, string("before"));
    c.ok("no-effect-list", dv == vector<int>{3});
}
void checkClosed(Ctx &c)
{
    c.ok("closed-sections", ConfigLoader::ListSections().empty());
    int i = 5;
    string t = "t";
    vector<string> v;
    c.throws<OXSXException>("closed-load", [&] { ConfigLoader::Load("fit", "min", i); });
    c.throws<OXSXException>("closed-load-string", [&] { ConfigLoader::Load("fit", "min", t); });
    c.throws<OXSXException>("closed-load-list", [&] { ConfigLoader::Load("fit", "min", v); });
}
} // namespace

FACET(read_back, 6)
{
    Scratch d;
    bool open = false;
    ConfigLoader::Close();
    checkClosed(c);
    Model cur;
    for (size_t n = s.size(1, 3); n-- > 0;)
    {
        switch (s.below(5))
        {
        case 0:
            ConfigLoader::Close();
            open = false;
            c.desc << "close ";
            break;
        case 1:
            c.throws<IOError>("missing-file", [&] { ConfigLoader::Open(string(d.dir) + "/missing.ini"); });
            c.desc << "missing ";
            break;
        default:
        {
            cur = genModel(s);
            string t = write(s, cur);
            c.desc << "open <<" << t << ">> ";
            size_t nf = 0;
            for (auto &x : cur)
                nf += x.second.size();
            c.nontrivial = c.nontrivial || (cur.size() > 1 && nf > 2);
            ConfigLoader::Open(d.write(t));
            open = true;
        }
        }
        if (open)
            check(c, s, cur);
        else
            checkClosed(c);
    }
    ConfigLoader::Close();
}
FACET(any_text, 6)
{
    // whatever the text, the reader reads or refuses it; afterwards it still works
    string t;
    bool structured = s.boolean();
    if (structured)
    {
        t = write(s, genModel(s));
        for (size_t n = s.size(0, 4); n-- > 0 && !t.empty();)
        {
            size_t i = s.below(t.size());
            switch (s.below(4))
            {
            case 0:
                t.erase(i, 1 + s.below(4));
                break;
            case 1:
                t.insert(i, s.pick(vector<string>{"[", "]", "=", "\n", "[[", "[[[", "\n[x]\n", "\n[[y]]\n", string(1, '\0'), "\r", "\n=\n", "\n[\n"}));
                break;
            case 2:
                t[i] = char(s.below(256));
                break;
            default:
                t += t.substr(i, 1 + s.below(30));
            }
        }
    }
    else
        for (size_t n = s.size(0, 12); n-- > 0;)
            t += s.pick(vector<string>{"[", "]", "[[", "]]", "a", "b", "=", "\n", " ", "\t", "#", ";", "\r", "[a]\n", "[[b]]\n", "[[[c]]]\n", "x=1\n", "y=\n", "=\n", "1,2,,3", "\xff", string(1, '\0')});
    c.desc << "<<" << t << ">>";
    c.nontrivial = std::count(t.begin(), t.end(), '\n') > 1;
    Scratch d;
    string good = d.write("[ok]\nvalue = 12\n"), any = d.write(t);
    if (s.boolean())
        ConfigLoader::Open(good);
    else
        ConfigLoader::Close();
    bool read = true;
    try
    {
        ConfigLoader::Open(any);
    }
    catch (const std::exception &)
    {
        read = false;
    }
    c.tag(read ? "read" : "refused");
    for (auto &n : ConfigLoader::ListSections())
    {
        string v;
        try
        {
            ConfigLoader::Load(n, "a", v);
        }
        catch (const OXSXException &)
        {
        }
    }
    if (s.boolean())
        ConfigLoader::Close();
    ConfigLoader::Open(good);
    int v = 0;
    ConfigLoader::Load("ok", "value", v);
    c.eq("still-works", v, 12);
    c.ok("only-the-new-file", ConfigLoader::ListSections() == std::set<string>{"ok"});
    ConfigLoader::Close();
}
// single values: read as they are or refused with the target untouched, never something else
FACET(conversion, 2)
{
    Scratch d;
    long long i = s.boolean() ? (long long)(s.below(1ull << 62) << 2) >> s.below(60) : s.pick(vector<long long>{0, -1, SHRT_MAX, SHRT_MIN, SHRT_MAX + 1LL, SHRT_MIN - 1LL, INT_MAX, INT_MIN, INT_MAX + 1LL, INT_MIN - 1LL, LLONG_MAX, LLONG_MIN, UINT_MAX, UINT_MAX + 1LL});
    double x = s.boolean() ? std::ldexp(s.fine(8, 3), int(s.range(-1000, 1000))) : s.pick(vector<double>{1e-300, DBL_MAX, -DBL_MAX, DBL_MIN, 0.1});
    string bad = s.pick(vector<string>{"", "energy", "x1", ".", "e5", "[1]", "#"});
    vector<string> items = {num(x), std::to_string(i), num(1.5)};
    size_t at = s.below(items.size() + 1);
    items.insert(items.begin() + at, bad.empty() ? "none" : bad);
    string list;
    for (auto &t : items)
        list += (list.empty() ? "" : ",") + t;
    c.desc << i << " " << num(x) << " <" << bad << "> list " << list;
    c.nontrivial = true;
    ConfigLoader::Close();
    ConfigLoader::Open(d.write("[s]\ni = " + std::to_string(i) + "\nx=" + num(x) + "\nhuge=1e999\nbad=" + bad + "\nlist=" + list + "\nlong=99999999999999999999\n"));
    auto integer = [&](const char *id, auto v) {
        typedef decltype(v) T;
        v = 7;
        bool fits = i >= (long long)std::numeric_limits<T>::min() && (i < 0 || (unsigned long long)i <= (unsigned long long)std::numeric_limits<T>::max());
        if (fits)
        {
            ConfigLoader::Load("s", "i", v);
            c.ok(id, (long long)v == i, std::to_string(v));
        }
        else if (std::is_signed<T>::value)
        {
            c.throws<ValueError>(id, [&] { ConfigLoader::Load("s", "i", v); });
            c.ok(id, v == 7, "target changed");
        }
        v = 7;
        c.throws<ValueError>(id, [&] { ConfigLoader::Load("s", "bad", v); });
        c.throws<ValueError>(id, [&] { ConfigLoader::Load("s", "long", v); });
        c.ok(id, v == 7, "target changed");
    };
    integer("short", short(0));
    integer("int", 0);
    integer("long", 0L);
    integer("long-long", 0LL);
    integer("unsigned", 0u);
    integer("unsigned-long", 0ul);
    double y = 7;
    ConfigLoader::Load("s", "x", y);
    c.eq("double", y, x);
    y = 7;
    ConfigLoader::Load("s", "i", y);
    c.eq("double-of-integer", y, double(i));
    y = 7;
    c.throws<ValueError>("double-bad", [&] { ConfigLoader::Load("s", "bad", y); });
    c.throws<ValueError>("double-huge", [&] { ConfigLoader::Load("s", "huge", y); });
    c.eq("double-untouched", y, 7.);
    vector<double> v;
    c.throws<ValueError>("list-item", [&] { ConfigLoader::Load("s", "list", v); });
    c.ok("list-item-added", v.size() <= at && (v.empty() || v[0] == x), "only items before the bad one");
    ConfigLoader::Close();
}
FACET(refused, 2)
{
    // a name given twice is ambiguous: the whole file is refused
    Scratch d;
    int kind = int(s.below(4));
    size_t depth = s.size(1, 5), at = 0;
    string t;
    for (size_t i = 0; i < depth; i++)
        t += string(i + 1, '[') + "s" + std::to_string(i) + string(i + 1, ']') + "\n" + junk(s) + (s.boolean() ? "k" + std::to_string(s.below(3)) + "=1\n" : "");
    string ok = t + string(depth, '[') + "other" + string(depth, ']') + "\n", bad = ok;
    bool bare = s.chance(1, 3); // a section without fields is one as well
    if (!bare)
        ok += "key=1\n", bad = ok;
    if (kind == 0) // same section again, at some depth
    {
        bad += string(depth, '[') + "again" + string(depth, ']') + "\n" + (s.boolean() ? "a=b\n" : "") + junk(s);
        at = bad.size();
        bad += string(depth, '[') + "other" + string(depth, ']') + "\nelse=1\n";
    }
    else if (kind == 1) // same key again
    {
        bad += (s.boolean() ? "between=2\n" : "") + junk(s);
        at = bad.size();
        if (bare)
        {
            bad += "key=1\n";
            at = bad.size();
        }
        bad += pad(s) + "key" + pad(s) + "=" + s.pick(vector<string>{"1", "2", ""}) + "\n";
    }
    else if (kind == 2) // skips a depth
    {
        at = bad.size();
        bad += string(depth + 2, '[') + "deep" + string(depth + 2, ']') + "\n";
    }
    else // neither a section nor a field
    {
        at = bad.size();
        bad += s.pick(vector<string>{"key", "no field", "]", "value 12"}) + "\n";
    }
    if (s.boolean())
        bad += "[end]\nmin=1\n";
    c.desc << "<<" << bad << ">>";
    c.nontrivial = depth > 1;
    ConfigLoader::Close();
    ConfigLoader::Open(d.write(ok));
    string line = std::to_string(std::count(bad.begin(), bad.begin() + at, '\n') + 1), what;
    try
    {
        ConfigLoader::Open(d.write(bad));
        c.fail("ambiguous", "accepted");
    }
    catch (const std::runtime_error &e)
    {
        what = e.what();
    }
    c.ok("names-the-line", what.find(line) != string::npos, "line " + line + ": " + what);
    ConfigLoader::Open(d.write(ok));
    c.ok("read", ConfigLoader::ListSections().count("s0"));
    ConfigLoader::Close();
}
FACET(parser, 3)
{
    // nested sections: what is written out parses back to the same thing
    struct Node
    {
        std::map<string, string> v;
        std::map<string, Node> s;
    };
    std::function<void(Node &, int)> gen = [&](Node &n, int depth) {
        for (size_t k = s.size(0, 2); k-- > 0;)
            n.v[s.pick(vector<string>{"a", "b", "c"})] = s.pick(vector<string>{"1", "x y", "", "p=q"});
        if (depth < 4)
            for (size_t k = s.size(0, 2); k-- > 0;)
                gen(n.s[s.pick(vector<string>{"s", "t", "u v"})], depth + 1);
    };
    Node top;
    gen(top, 0);
    size_t sections = 0, depth = 0;
    std::function<void(const Node &, size_t, string &)> wr = [&](const Node &n, size_t d, string &t) {
        depth = std::max(depth, d);
        for (auto &v : n.v)
            t += v.first + pad(s) + "=" + pad(s) + v.second + "\n" + junk(s);
        for (auto &c2 : n.s)
        {
            sections++;
            t += string(d + 1, '[') + c2.first + string(d + 1, ']') + "\n";
            wr(c2.second, d + 1, t);
        }
    };
    string t;
    wr(top, 0, t);
    c.desc << "<<" << t << ">>";
    c.nontrivial = sections > 1 && depth > 1;
    std::function<void(INI::Level &, const Node &, size_t)> cmp = [&](INI::Level &l, const Node &n, size_t d) {
        c.ok("values", l.values == n.v, "at depth " + std::to_string(d));
        c.eq("depth", l.depth, d);
        c.eq("n-sections", l.sections.size(), n.s.size());
        c.eq("ordered-values", l.ordered_values.size(), n.v.size());
        c.eq("ordered-sections", l.ordered_sections.size(), n.s.size());
        for (auto &x : n.s)
        {
            c.ok("section", l.sections.count(x.first));
            cmp(l.sections[x.first], x.second, d + 1);
        }
    };
    std::istringstream in(t);
    INI::Parser p(in);
    cmp(p.top(), top, 0);
    std::ostringstream out;
    p.dump(out);
    std::istringstream in2(out.str());
    INI::Parser p2(in2);
    cmp(p2.top(), top, 0);
}
ONCE(many_sections)
{
    Scratch d;
    string t;
    for (int i = 0; i < 60000; i++)
        t += "[s" + std::to_string(i) + "]\na=" + std::to_string(i) + "\n";
    ConfigLoader::Open(d.write(t));
    c.eq("sections", ConfigLoader::ListSections().size(), size_t(60000));
    int v = 0;
    ConfigLoader::Load("s59999", "a", v);
    c.eq("last", v, 59999);
    ConfigLoader::Close();
}
