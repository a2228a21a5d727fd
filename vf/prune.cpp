// Reads clang's -ast-dump=json of a whole translation unit on stdin and writes, one JSON
// object per line group, only those top level declarations located in files whose path
// starts with one of the prefixes given as arguments.  Pure filter; drops nothing inside.
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
int main(int argc, char** argv) {
    std::vector<std::string> pre(argv + 1, argv + argc);
    static char buf[1 << 22]; setvbuf(stdin, buf, _IOFBF, sizeof buf);
    char* line = nullptr; size_t cap = 0; ssize_t n;
    std::string cur, acc; bool in = false, decided = false, keep = false, prevIncl = false, first = true;
    fputs("[\n", stdout);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        // location tracking
        const char* p = line; while (*p == ' ') ++p;
        int ind = p - line;
        if (*p == '"' && !strncmp(p, "\"file\": \"", 9)) {
            if (!prevIncl) { const char* s = p + 9; const char* e = strrchr(s, '"'); cur.assign(s, e - s); }
        }
        prevIncl = !strncmp(p, "\"includedFrom\"", 14);
        if (!in) {
            if (ind == 4 && *p == '{') { in = true; decided = false; keep = false; acc.assign("    {\n"); }
            continue;
        }
        if (ind == 4 && *p == '}') {
            if (decided && keep) fputs("    }}\n", stdout);
            in = false; continue;
        }
        if (!decided) {
            acc.append(line, n);
            if (ind == 6 && !strncmp(p, "\"range\"", 7)) {
                decided = true;
                for (auto& s : pre) if (!cur.compare(0, s.size(), s)) keep = true;
                if (keep) { if (!first) fputs(",", stdout); first = false;
                    fprintf(stdout, "{\"file\": \"%s\", \"decl\":\n", cur.c_str()); fwrite(acc.data(), 1, acc.size(), stdout); }
            }
        } else if (keep) fwrite(line, 1, n, stdout);
    }
    fputs("]\n", stdout);
    return 0;
}
