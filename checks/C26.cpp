// C26: the generator of the single headers.  Source trees are enumerated, the script of /repo is run on each (in a scratch
// directory) and what it writes is compared, token by token, with what a preprocessor would read.
#include "mc.hpp"
#include <set>
#include <fstream>
#include <sstream>
#include <filesystem>
#include <sys/prctl.h>
namespace fs = std::filesystem;

namespace {
    typedef std::vector<std::string> Tokens;
    typedef std::map<std::string, std::string> Tree;  // relative path -> text

    std::string slurp(const fs::path &p) {
        std::ifstream f(p, std::ios::binary);
        std::ostringstream s;
        s << f.rdbuf();
        return s.str();
    }
    void put(const fs::path &p, const std::string &text) {
        fs::create_directories(p.parent_path());
        std::ofstream(p, std::ios::binary) << text;
    }

    // ---------------- the reference: what a preprocessor reads ----------------
    bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\f' || c == '\v'; }
    // Tokens without comments; a directive is one token per word with the line end kept, since it matters there.
    Tokens lex(const std::string &s) {
        Tokens out;
        size_t i = 0, n = s.size();
        bool directive = false, lineStart = true;
        while (i < n) {
            char c = s[i];
            if (c == '\n') { if (directive) out.push_back("\\n"); directive = false; lineStart = true; i++; continue; }
            if (c == '\\' && i + 1 < n && s[i + 1] == '\n') { i += 2; continue; }
            if (blank(c)) { i++; continue; }
            if (c == '/' && i + 1 < n && s[i + 1] == '/') { while (i < n && s[i] != '\n') i++; continue; }
            if (c == '/' && i + 1 < n && s[i + 1] == '*') { size_t e = s.find("*/", i + 2); i = e == std::string::npos ? n : e + 2; continue; }
            if (c == '#' && lineStart) directive = true;
            lineStart = false;
            if (c == '"' || c == '\'') {
                size_t b = i++;
                while (i < n && s[i] != c) i += s[i] == '\\' ? 2 : 1;
                i = std::min(n, i + 1);
                out.push_back(s.substr(b, i - b));
                continue;
            }
            if (isalnum((unsigned char) c) || c == '_') {
                size_t b = i;
                while (i < n && (isalnum((unsigned char) s[i]) || s[i] == '_')) i++;
                out.push_back(s.substr(b, i - b));
                continue;
            }
            out.push_back(std::string(1, c));
            i++;
        }
        if (directive) out.push_back("\\n");
        return out;
    }
    // drops "# pragma once"
    Tokens withoutOnce(const Tokens &t) {
        Tokens r;
        for (size_t i = 0; i < t.size(); i++) {
            if (i + 3 < t.size() && t[i] == "#" && t[i + 1] == "pragma" && t[i + 2] == "once" && t[i + 3] == "\\n") { i += 3; continue; }
            r.push_back(t[i]);
        }
        return r;
    }
    // The headers a program with this configuration reads, every one once (told apart by their path, or as spelled).
    void read(const Tree &tree, const std::string &config, const std::string &name, std::set<std::string> &seen, bool bySpelling, Tokens &out) {
        std::string path = "config/" + config + "/" + name;
        if (!tree.count(path)) path = "include/" + name;
        std::string clean;
        for (char c : path) if (c != '/' || clean.empty() || clean.back() != '/') clean += c;
        auto it = tree.find(clean);
        if (it == tree.end() || !seen.insert(bySpelling ? name : clean).second) return;
        Tokens t = withoutOnce(lex(it->second));
        for (size_t i = 0; i < t.size(); i++) {
            if (t[i] == "#" && i + 3 < t.size() && t[i + 1] == "include" && t[i + 2][0] == '"' && t[i + 3] == "\\n") {
                read(tree, config, t[i + 2].substr(1, t[i + 2].size() - 2), seen, bySpelling, out);
                i += 3;
            } else out.push_back(t[i]);
        }
    }
    Tokens expected(const Tree &tree, const std::string &config, bool bySpelling = false) {
        std::set<std::string> seen;
        Tokens out;
        read(tree, config, "fakeit.hpp", seen, bySpelling, out);
        return out;
    }

    // ---------------- running the script ----------------
    const Tree &scripts() {
        static Tree t;
        if (t.empty())
            for (auto &e : fs::directory_iterator(REPO_DIR))
                if (e.path().extension() == ".py") t[e.path().filename().string()] = slurp(e.path());
        return t;
    }
    struct Scratch {
        fs::path dir;
        Scratch() {
            std::string t = (fs::current_path() / "scratch-XXXXXX").string();
            if (!mkdtemp(&t[0])) { perror("mkdtemp"); _exit(3); }
            dir = t;
        }
        ~Scratch() {
            std::error_code e;
            if (dir.string().find("scratch-") != std::string::npos) fs::remove_all(dir, e);
        }
        fs::path root() const { return dir / "lib"; }
        void write(const Tree &t) { for (auto &e : t) put(root() / e.first, e.second); }
        Tree all() const {
            Tree t;
            for (auto &e : fs::recursive_directory_iterator(root()))
                if (e.is_regular_file() && e.path().string().find("__pycache__") == std::string::npos) t[fs::relative(e.path(), root()).string()] = slurp(e.path());
            return t;
        }
        // from: 0 in the directory of the script, 1 elsewhere with an absolute path, 2 elsewhere with a relative path
        int run(std::vector<std::string> args, int from = 0) {
            const char *name = "generate_fakeit_single_header.py";
            fs::path other = dir / "other" / "place", script = from == 0 ? fs::path(name) : from == 1 ? root() / name : fs::path("../../lib") / name;
            fs::create_directories(other);
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                if (chdir((from ? other : root()).c_str())) _exit(120);
                int null = open("/dev/null", O_RDWR);
                dup2(null, 0), dup2(null, 1);
                if (!mc::verbose()) dup2(null, 2);
                setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
                std::vector<std::string> a = {"python3", script.string()};
                a.insert(a.end(), args.begin(), args.end());
                std::vector<char *> v;
                for (auto &s : a) v.push_back(&s[0]);
                v.push_back(nullptr);
                execvp("python3", v.data());
                _exit(121);
            }
            int st = 0;
            waitpid(p, &st, 0);
            mc::beat();
            if (WIFEXITED(st) && WEXITSTATUS(st) >= 120) { fprintf(stderr, "python3 cannot be run\n"); _exit(3); }
            return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
        }
    };
    std::string joined(const Tokens &t, size_t from = 0, size_t n = 12) {
        std::string s;
        for (size_t i = from; i < t.size() && i < from + n; i++) s += (i > from ? " " : "") + t[i];
        return s;
    }
    std::string difference(const Tokens &a, const Tokens &b) {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
        return "token " + std::to_string(i) + ": read \"" + joined(a, i) + "\", generated \"" + joined(b, i) + "\"";
    }
    std::string headerOf(const std::string &config) { return "single_header/" + config + "/fakeit.hpp"; }
    void compare(const Tree &before, const Tree &after, const std::string &config) {
        auto it = after.find(headerOf(config));
        MC_CHECK(it != after.end(), "no header was written for %s", config.c_str());
        Tokens want = expected(before, config), got = withoutOnce(lex(it->second));
        if (mc::verbose()) for (auto &e : before) if (fs::path(e.first).extension() != ".py") MC_LOG("--- %s\n%s", e.first.c_str(), e.second.c_str());
        MC_LOG("=== %s\n%s", headerOf(config).c_str(), it->second.c_str());
        MC_CHECK(want == got || expected(before, config, true) == got, "%s: %s", headerOf(config).c_str(), difference(want, got).c_str());
        MC_CHECK(it->second.find("#pragma once") != std::string::npos, "%s can be included twice", headerOf(config).c_str());
        mc::step(mc::hashStr(joined(want, 0, want.size())));
    }
    void others(const Tree &before, const Tree &after, const std::set<std::string> &generated) {
        for (auto &e : before)
            if (!generated.count(e.first)) {
                auto it = after.find(e.first);
                MC_CHECK(it != after.end(), "%s is gone", e.first.c_str());
                MC_CHECK(it->second == e.second, "%s was changed", e.first.c_str());
            }
        for (auto &e : after) MC_CHECK(before.count(e.first) || generated.count(e.first), "%s was written", e.first.c_str());
    }
    Tree base() { return scripts(); }

    // ---------------- space 1: include graphs ----------------
    // an ordered selection of the given names
    std::vector<std::string> selection(std::vector<std::string> names) {
        std::vector<std::string> r;
        while (!names.empty()) {
            int k = mc::choose((int) names.size() + 1);
            if (k == 0) break;
            r.push_back(names[k - 1]);
            names.erase(names.begin() + (k - 1));
        }
        return r;
    }
    std::string file(const std::string &tag, const std::vector<std::string> &includes, int style) {
        std::string s = "#pragma once\n";
        int n = 0;
        for (auto &i : includes) {
            s += (style == 1 && n ? "  #include   \"" : "#include \"") + i + "\"" + (style == 1 ? "  // needed\n" : "\n");
            if (style == 1) s += "int " + tag + "_" + std::to_string(n) + ";\n";
            n++;
        }
        return s + "struct " + tag + " {};\n";
    }
    std::vector<std::vector<std::string>> selections(const std::vector<std::string> &names) {
        std::vector<std::vector<std::string>> r = {{}};
        for (size_t i = 0; i < r.size(); i++)
            for (auto &n : names)
                if (std::find(r[i].begin(), r[i].end(), n) == r[i].end()) { auto m = r[i]; m.push_back(n); r.push_back(m); }
        return r;
    }
    // Runs the script for all configurations of the tree at once and compares each.
    void generateAll(const Tree &t, const std::vector<std::string> &configs) {
        Scratch s;
        s.write(t);
        MC_CHECK(s.run({"-a"}) == 0, "the generator fails");
        Tree after = s.all();
        std::set<std::string> files;
        for (auto &c : configs) { compare(t, after, c); files.insert(headerOf(c)); }
        others(t, after, files);
    }
    // One configuration for each way its own file can include the headers.
    void graphs(bool four) {
        int own = four ? 0 : mc::choose(3);  // the configurations have their own version of a header
        int style = four ? 0 : mc::choose(2);
        bool nested = style == 1;  // headers in directories
        std::string a = nested ? "part/a.hpp" : "a.hpp", b = nested ? "other/a.hpp" : "b.hpp", c = "c.hpp", d = "d.hpp";
        Tree t = base();
        if (four) {
            t["include/" + a] = file("A", selection({b, c, d}), style);
            t["include/" + b] = file("B", selection({a, d}), style);
            t["include/" + c] = file("C", selection({b, d}), style);
            t["include/" + d] = file("D", selection({a, c}), style);
        } else {
            t["include/" + a] = file("A", selection({b, c}), style);
            t["include/" + b] = file("B", selection({a, c}), style);
            t["include/" + c] = file("C", selection({a, b}), style);
        }
        std::vector<std::string> mine = own ? selection({a}) : std::vector<std::string>(), configs;
        for (auto &sel : selections(four ? std::vector<std::string>{a, b, c, d} : std::vector<std::string>{a, b, c})) {
            configs.push_back("cfg" + std::to_string(configs.size()));
            t["config/" + configs.back() + "/fakeit.hpp"] = file("Root", sel, style);
            if (own) t["config/" + configs.back() + "/" + (own == 1 ? b : c)] = file(own == 1 ? "OwnB" : "OwnC", mine, style);
        }
        generateAll(t, configs);
        mc::outcome(own ? "own header" : "common headers");
    }

    // ---------------- space 2: the text of headers ----------------
    const char *const LINES[] = {
        "int a;",
        "int b; // trailing",
        "// only a comment",
        "int /* inline */ c;",
        "/* at start */ int d;",
        "int e; /* at end */",
        "/* several\n * lines\n */",
        "int f; /* begins\n ends */ int g;",
        "",
        "   \t",
        "#define TWICE(x) \\\n    ((x) + \\\n     (x))",
        "#include <vector>",
        "const char *s = \"text 'quoted' \\\" here\";",
        "char q = '\"';",
        "int h = 4 / 2; int i = 8 /4*2;",
        "/* // */ int j;",
        "// /* not a beginning",
        "int k;/**/int l;",
        "#if defined(X) // why\n# define Y 1\n#else /* not */\n# define Y 2\n#endif",
        "\tint m;  ",
        "/***** box *****/",
        "#pragma once",
        "#pragma pack(1)",
        "template<typename T, typename U = void> struct N; /**< doc */ /* and more */ int o;",
        "#include \"h.hpp\"",
        "#define STR(x) #x",
        "int p = 1 \\\n  + 2;",
        "/*/ tricky */ int r;",
        "int t; /* a */ /* b */ int u; // c",
        "/* a * / b **/int v;",
        "// see http://example.org/*",
        "\n\n",
        "\"a\" \"b\"",
        "int w;/* one\n two */",
        "/* one */ /* two\n three */ int x; /* four */",
        "#define LONG(a, b) do { a; } \\\n    /* in a macro */ while (b) // end",
        "#include <map> // ordered",
        "class /*\n*/ K; int operator/(K, K);",
        "#define EMPTY",
        "void y() { } /* \xc3\xa9t\xc3\xa9 */ // \xe2\x82\xac",
    };
    const int NLINES = sizeof LINES / sizeof *LINES;
    // One configuration, or one header of a configuration, for each last piece of text.
    void texts(int n, bool vary) {
        bool endsWithNewline = vary ? mc::flag() : true;
        int where = vary ? mc::choose(3) : 2;  // in the configuration's file, in headers of it, in common headers
        std::string s, root = "#pragma once\n#include \"g.hpp\"\n";
        for (int i = 0; i + 1 < n; i++) s += LINES[mc::choose(NLINES)] + std::string("\n");
        Tree t = base();
        std::vector<std::string> configs;
        for (int k = 0; k < NLINES; k++) {
            std::string number = std::to_string(k), text = s + LINES[k] + (endsWithNewline ? "\n" : "");
            if (where == 0) {
                configs.push_back("cfg" + number);
                t["config/cfg" + number + "/fakeit.hpp"] = "#include \"g.hpp\"\n" + text;
            } else {
                root += "#include \"y" + number + ".hpp\"\nint after_" + number + ";\n";
                t[(where == 1 ? "config/one/y" : "include/y") + number + ".hpp"] = text;
            }
        }
        if (where) configs.push_back("one"), t["config/one/fakeit.hpp"] = root;
        t["include/g.hpp"] = "#pragma once\n/*\n * Copyright\n */\nint before;\n";
        t["include/h.hpp"] = "#pragma once\nint header;\n";
        generateAll(t, configs);
        if (where) for (int k = 0; k < NLINES; k++) mc::step(mc::mix(mc::hashStr(s), k));
    }

    // ---------------- space 3: configurations, options, places ----------------
    void options() {
        Tree t = base();
        static const char *const C[] = {"one", "two", "three"};
        for (int i = 0; i < 3; i++) {
            std::string c = C[i];
            t["config/" + c + "/fakeit.hpp"] = "#pragma once\n#include \"common/first.hpp\"\n#include \"instance.hpp\"\n#include \"common/last.hpp\"\nint end_" + c + ";\n";
            t["config/" + c + "/instance.hpp"] = "#pragma once\n#include \"adapter.hpp\"\nint instance_" + c + ";\n";
            if (i != 1) t["config/" + c + "/adapter.hpp"] = "#pragma once\n#include \"common/first.hpp\"\nint adapter_" + c + ";\n";
        }
        t["include/adapter.hpp"] = "#pragma once\nint adapter_default;\n";
        t["include/common/first.hpp"] = "#pragma once\nint first;\n";
        t["include/common/last.hpp"] = "#pragma once\n#include \"common/first.hpp\"\nint last;\n";
        t["config/notes.txt"] = "not a configuration\n";
        int old = mc::choose(3);  // what was there before: nothing, something shorter, something longer
        if (old)
            for (int i = 0; i < 3; i++) t[headerOf(C[i])] = old == 1 ? "#pragma once\n" : "#pragma once\n" + std::string(4000, ' ') + "int stale;\n" + std::string(4000, '\n') + "int staler;\n";
        int from = mc::choose(3), runs = 1 + mc::choose(2);
        Scratch s;
        s.write(t);
        std::set<std::string> made;
        for (int r = 0; r < runs; r++) {
            std::vector<std::string> args;
            int n = mc::choose(r ? 2 : mc::bound(3, 4));
            bool brief = r || mc::flag();
            if (n == 0) { args.push_back(brief ? "-a" : "--all"); for (auto c : C) made.insert(c); }
            else {
                args.push_back(brief ? "-c" : "--configs");
                for (int i = 0; i < n; i++) { args.push_back(C[mc::choose(3)]); made.insert(args.back()); }
            }
            MC_CHECK(s.run(args, from) == 0, "the generator fails");
            mc::outcome(n == 0 ? "all" : "some");
            Tree after = s.all();
            std::set<std::string> files;
            for (auto &c : made) { compare(t, after, c); files.insert(headerOf(c)); }
            others(t, after, files);
        }
    }
    // arguments that name nothing must not write anything
    void mistakes() {
        static const std::vector<std::vector<std::string>> A = {{}, {"-c"}, {"-c", "four"}, {"-c", "one", "four"}, {"-a", "-c", "one"}, {"--nonsense"}, {"one"}};
        Tree t = base();
        t["config/one/fakeit.hpp"] = "#pragma once\nint one;\n";
        t["config/two/fakeit.hpp"] = "#pragma once\nint two;\n";
        bool present = mc::flag();
        if (present) t[headerOf("one")] = "#pragma once\nint earlier;\n";
        Scratch s;
        s.write(t);
        int k = mc::choose((int) A.size());
        MC_CHECK(s.run(A[k], mc::choose(3)) != 0, "wrong arguments are accepted");
        others(t, s.all(), {});
        mc::step(k);
    }

    // ---------------- space 4: the library itself ----------------
    void library() {
        Tree t = base();
        std::vector<std::string> configs;
        for (const char *d : {"config", "include"})
            for (auto &e : fs::recursive_directory_iterator(fs::path(REPO_DIR) / d))
                if (e.is_regular_file()) t[fs::relative(e.path(), REPO_DIR).string()] = slurp(e.path());
        for (auto &e : fs::directory_iterator(fs::path(REPO_DIR) / "config")) if (e.is_directory()) configs.push_back(e.path().filename().string());
        std::sort(configs.begin(), configs.end());
        int mode = mc::choose(2 + (int) configs.size());
        std::vector<std::string> args = {"-a"}, made = configs;
        if (mode == 1) { args = {"-c"}; for (auto i = configs.rbegin(); i != configs.rend(); ++i) args.push_back(*i); }
        if (mode > 1) made = {configs[mode - 2]}, args = {"-c", made[0]};
        Scratch s;
        s.write(t);
        MC_CHECK(s.run(args) == 0, "the generator fails");
        Tree after = s.all();
        std::set<std::string> files;
        for (auto &c : made) { compare(t, after, c); files.insert(headerOf(c)); }
        others(t, after, files);
        mc::outcome(made.size() > 1 ? "all" : "one");
    }
}

int main(int argc, char **argv) {
    int rc = mc::main(argc, argv, [] {
        scripts();
        mc::Options o;
        o.shardDepth = 3;
        o.mandatory = {"own header", "common headers"};
        o.bound = "every include graph (cycles included) of a configuration's file and three headers, includes in every order, with no or one of two headers replaced by the configuration; one run for 16 configurations";
        mc::add("graphs", o, [] { graphs(false); });
        o.mandatory = {};
        if (mc::bound(0, 1)) {
            o.bound = "the configuration's file and four headers, 65 configurations in one run";
            mc::add("graphs-4", o, [] { graphs(true); });
        }
        o.shardDepth = 2;
        o.bound = "every pair of 40 pieces of text, in three places, with and without a last line end";
        mc::add("pairs", o, [] { texts(2, true); });
        o.shardDepth = 1;
        o.bound = "every sequence of 3 of 40 pieces of text";
        mc::add("texts", o, [] { texts(3, false); });
        o.shardDepth = 3;
        o.mandatory = {"all", "some"};
        o.bound = "1..2 runs of -a or -c with every list of up to 2 (3) of 3 configurations, from 3 places, over 3 earlier outputs";
        mc::add("options", o, options);
        o.mandatory = {};
        o.shardDepth = 2;
        o.bound = "7 wrong command lines";
        mc::add("mistakes", o, mistakes);
        o.shardDepth = 1;
        o.mandatory = {"all", "one"};
        o.bound = "the library's own sources, all configurations at once, in reverse, and one by one";
        mc::add("library", o, library);
    });
    // what interrupted executions left
    std::vector<fs::path> left;
    for (auto &e : fs::directory_iterator(fs::current_path())) if (e.path().filename().string().rfind("scratch-", 0) == 0) left.push_back(e.path());
    for (auto &p : left) { std::error_code e; fs::remove_all(p, e); }
    return rc;
}
