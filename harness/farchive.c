/* C57: embedded archives. The archiver runs in a child, its output is
 * compiled and loaded, and every file is asked back. */
#define main farchc_main
#include "src/tools/farchc.c"
#undef main
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include "hk.h"

#define HKF_CLANG  "/usr/lib/llvm-18/bin/clang"

typedef struct hkf_file_t {
    char *name;
    char *data;
    int   len;
} hkf_file_t;

static char hkf_tree_g[PATH_MAX];

static const char *hkf_clang(void)
{
    return access(HKF_CLANG, X_OK) == 0 ? HKF_CLANG : "clang-18";
}

/* the source compiles as a shared object */
static int hkf_compile(const char *dir, const char *src, const char *so)
{
    pid_t pid = (fork)();
    int st;

    if (pid < 0) {
        hk_error("fork: %m");
    }
    if (!pid) {
        char inc[PATH_MAX + 8], inc2[PATH_MAX + 40];
        int fd = open("/dev/null", O_RDWR);

        (void)dir;
        dup2(fd, 1);
        dup2(fd, 2);
        snprintf(inc, sizeof(inc), "-I%s", hkf_tree_g);
        snprintf(inc2, sizeof(inc2), "-I%s/src/compat", hkf_tree_g);
        execlp(hkf_clang(), "clang", "-shared", "-fPIC", "-w", "-O0", "-std=gnu11",
               "-fblocks", "-funsigned-char", "-D_GNU_SOURCE",
               "-DHAS_LIBCOMMON_REPOSITORY=0", "-D__gcc_has_no_ifunc",
               "-I/usr/include/libxml2", inc, inc2, "-o", so, src, NULL);
        _exit(127);
    }
    while (waitpid(pid, &st, 0) < 0) {
    }
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

static int hkf_archive(const char *script, const char *out, const char *deps,
                   bool lzo)
{
    pid_t pid;
    int st;

    fflush(NULL);
    pid = (fork)();
    if (pid < 0) {
        hk_error("fork: %m");
    }
    if (!pid) {
        char *argv[10];
        int argc = 0;

        argv[argc++] = (char *)"farchc";
        if (lzo) {
            argv[argc++] = (char *)"-c";
        }
        if (deps) {
            argv[argc++] = (char *)"-d";
            argv[argc++] = (char *)deps;
        }
        argv[argc++] = (char *)"-o";
        argv[argc++] = (char *)out;
        argv[argc++] = (char *)script;
        argv[argc] = NULL;
        _exit(farchc_main(argc, argv));
    }
    while (waitpid(pid, &st, 0) < 0) {
    }
    if (WIFSIGNALED(st)) {
        hk_violation("archiver-crash", "farchc: signal %d", WTERMSIG(st));
    }
    return WEXITSTATUS(st);
}

static void hkf_put_file(const char *path, const void *data, int len)
{
    FILE *f = fopen(path, "w");

    if (!f || fwrite(data, 1, len, f) != (size_t)len || fclose(f)) {
        hk_error("cannot write %s: %m", path);
    }
}

static int hkf_any_size(void)
{
    switch (hk_below(8)) {
      case 0:
        return 0;
      case 1:
        return 1 + hk_below(5);
      case 2:
        return 60 + hk_below(10);
      case 3:
        return 120 + hk_below(16);
      case 4:
        return hk_below(400);
      case 5:
        return hk_below(5000);
      case 6:
        return hk_chance(1, 3) ? hk_below(100000) : hk_below(9000);
      default:
        return 4000 + hk_below(200);
    }
}

static void hkf_any_data(hkf_file_t *f)
{
    f->len = hkf_any_size();
    f->data = (malloc)(f->len + 1);
    switch (hk_below(6)) {
      case 0:
        hk_fill(f->data, f->len);
        break;
      case 1:
        memset(f->data, hk_rand(), f->len);
        break;
      case 2:
        for (int i = 0; i < f->len; i++) {
            f->data[i] = "etaoin shrdlu\n"[hk_below(14)];
        }
        break;
      case 3: {
        int p = 1 + hk_below(40);

        for (int i = 0; i < f->len; i++) {
            f->data[i] = i < p || hk_chance(1, 50) ? hk_rand()
                                                   : f->data[i - p];
        }
        break;
      }
      case 4:
        for (int i = 0; i < f->len; i++) {
            f->data[i] = i;
        }
        break;
      default:
        for (int i = 0; i < f->len; i++) {
            f->data[i] = "\0\\\"x\x7f\xff\x80" "0a?\n\r%"[hk_below(13)];
        }
        break;
    }
}

static char *hkf_any_name(unsigned id)
{
    static const char * const mid[] = {
        "a", "x y", "é", "%s", "%d%n", "\\n", "\"q\"", "a.b", "-", "'", "$v",
        "..a", "#1", "ff0", "\xff", "{", "}",
    };
    char buf[600];
    int len = 0;

    if (hk_chance(1, 3)) {
        len += sprintf(buf, "d%u/", (unsigned)hk_below(3));
        if (hk_chance(1, 3)) {
            len += sprintf(buf + len, "e/");
        }
    }
    len += sprintf(buf + len, "f%u", id);
    for (int i = hk_below(5); i; i--) {
        len += sprintf(buf + len, "%s", mid[hk_below(countof(mid))]);
    }
    if (hk_chance(1, 5)) {
        for (int i = hk_below(200); i; i--) {
            buf[len++] = 'a' + hk_below(26);
        }
        buf[len] = '\0';
    }
    return (strdup)(buf);
}

static void hkf_put_blank(FILE *f)
{
    static const char * const junk[] = {
        "\n", "# comment\n", "   # a/b\n", "  \n", "\t\n",
    };

    while (hk_chance(1, 4)) {
        fputs(junk[hk_below(countof(junk))], f);
    }
}

static void hkf_sc_archive(void)
{
    t_scope;
    char dir[PATH_MAX], path[2 * PATH_MAX], script[PATH_MAX + 20];
    char out[PATH_MAX + 20], so[PATH_MAX + 20], deps[PATH_MAX + 20];
    int nb = hk_chance(1, 10) ? hk_below(2) : hk_below(60);
    hkf_file_t *files = (calloc)(nb + 1, sizeof(hkf_file_t));
    bool lzo = hk_chance(1, 2), with_deps = hk_chance(1, 3);
    const char *hole = NULL;
    const farch_entry_t *(*get)(void);
    const farch_entry_t *arch;
    uint64_t h = 0;
    void *dl;
    FILE *f;
    int rc, res;

    snprintf(dir, sizeof(dir), "%s/arch", hk_scratch_g);
    mkdir(dir, 0755);
    for (int i = 0; i < 3; i++) {
        snprintf(path, sizeof(path), "%s/d%d", dir, i);
        mkdir(path, 0755);
        snprintf(path, sizeof(path), "%s/d%d/e", dir, i);
        mkdir(path, 0755);
    }
    snprintf(script, sizeof(script), "%s/script.fc", dir);
    snprintf(out, sizeof(out), "%s/out.c", dir);
    snprintf(so, sizeof(so), "%s/out.so", dir);
    snprintf(deps, sizeof(deps), "%s/out.d", dir);

    f = fopen(script, "w");
    if (!f) {
        hk_error("cannot write %s: %m", script);
    }
    hkf_put_blank(f);
    fputs("arch\n", f);
    for (int i = 0; i < nb; i++) {
        hkf_put_blank(f);
        files[i].name = hkf_any_name(i);
        hkf_any_data(&files[i]);
        h = hk_hash(files[i].data, files[i].len, h);
        snprintf(path, sizeof(path), "%s/%s", dir, files[i].name);
        hkf_put_file(path, files[i].data, files[i].len);
        fprintf(f, "%s%s%s\n", hk_chance(1, 8) ? "  " : "", files[i].name,
                hk_chance(1, 8) ? " \t" : "");
    }
    if (hk_chance(1, 12)) {
        fprintf(f, "missing/file\n");
        hole = "missing/file";
    }
    hkf_put_blank(f);
    fclose(f);

    rc = hkf_archive(script, out, with_deps ? deps : NULL, lzo);
    if (hole) {
        HK_CHECK(rc != 0, "missing", "missing file, but success");
        HK_CHECK(access(out, F_OK) < 0, "partial",
                 "partial archive left behind");
        hk_count("refused", 1);
        goto end;
    }
    HK_CHECK(rc == 0, "archiver", "farchc fails (%d) on %d files", rc, nb);
    if (with_deps) {
        lstr_t d;

        if (lstr_init_from_file(&d, deps, PROT_READ, MAP_SHARED) < 0) {
            hk_violation("deps", "no dependencies file");
        }
        for (int i = 0; i < nb; i++) {
            snprintf(path, sizeof(path), "%s/%s\n", dir, files[i].name);
            HK_CHECK(memmem(d.s, d.len, path, strlen(path)), "deps",
                     "`%s` is not among the dependencies", files[i].name);
        }
        lstr_wipe(&d);
    }

    chmod(out, 0644);
    f = fopen(out, "a");
    fprintf(f, "\n__attribute__((visibility(\"default\")))\n"
            "const farch_entry_t *arch_get(void) { return arch; }\n");
    fclose(f);
    res = hkf_compile(dir, out, so);
    if (res) {
        snprintf(path, sizeof(path), "%s/empty.c", dir);
        f = fopen(path, "w");
        fprintf(f, "#include <lib-common/farch.h>\n");
        fclose(f);
        if (hkf_compile(dir, path, so)) {
            hk_error("cannot compile (%d)", res);
        }
        hk_violation("compile", "the archive of %d files does not compile",
                     nb);
    }
    dl = dlopen(so, RTLD_NOW | RTLD_LOCAL);
    if (!dl) {
        hk_error("dlopen: %s", dlerror());
    }
    get = dlsym(dl, "arch_get");
    arch = (*get)();

    MODULE_REQUIRE(farch);
    for (int i = 0; i < nb; i++) {
        char *name = (malloc)(FARCH_MAX_FILENAME);
        lstr_t data, persist;

        HK_CHECK(farch_get_filename(&arch[i], name) == name, "name",
                 "entry %d has no name", i);
        hk_check_mem("name", "name", name, strlen(name), files[i].name,
                     strlen(files[i].name));
        (free)(name);

        name = hk_exact(files[i].name, strlen(files[i].name) + 1);
        persist = farch_get_data_persist(arch, name);
        hk_check_mem("data-persist", "data", persist.s, persist.len,
                     files[i].data, files[i].len);
        data = t_farch_get_data(arch, name);
        hk_check_mem("data", "data", data.s, data.len, files[i].data,
                     files[i].len);
        HK_CHECK(data.s[data.len] == '\0', "nul", "no terminator");
        HK_CHECK(persist.s[persist.len] == '\0', "nul", "no terminator");
        data = farch_unarchive_persist(&arch[i]);
        HK_CHECK(data.s == persist.s && data.len == persist.len,
                 "persist-twice", "two copies of the entry %d", i);
        data = t_farch_get_data(&arch[i], NULL);
        hk_check_mem("data-entry", "data", data.s, data.len, files[i].data,
                     files[i].len);
        data = t_farch_unarchive(&arch[i]);
        hk_check_mem("data-entry", "data", data.s, data.len, files[i].data,
                     files[i].len);
        /* a name that is not there */
        name[hk_below(strlen(name))] ^= 0x11;
        for (int j = 0; j < nb; j++) {
            if (!strcmp(files[j].name, name)) {
                goto next;
            }
        }
        HK_CHECK(!t_farch_get_data(arch, name).s
                 && !farch_get_data_persist(arch, name).s, "unknown",
                 "data for a file that is not there");
      next:
        (free)(name);
        hk_distinct(hk_mix(h, i));
    }
    HK_CHECK(!arch[nb].name.len
             && !farch_get_filename(&arch[nb], path), "end",
             "no end after %d entries", nb);
    HK_CHECK(!t_farch_get_data(arch, "nope").s, "unknown",
             "data for a file that is not there");
    /* persistent copies live until the module is released */
    for (int i = 0; i < nb; i++) {
        lstr_t persist = farch_get_data_persist(arch, files[i].name);

        hk_check_mem("data-persist", "data", persist.s, persist.len,
                     files[i].data, files[i].len);
    }
    MODULE_RELEASE(farch);
    dlclose(dl);
    hk_count("files", nb);
    hk_count(lzo ? "compressed" : "raw", 1);

  end:
    unlink(out);
    unlink(so);
    unlink(deps);
    for (int i = 0; i < nb; i++) {
        snprintf(path, sizeof(path), "%s/%s", dir, files[i].name);
        unlink(path);
        (free)(files[i].name);
        (free)(files[i].data);
    }
    (free)(files);
}

int main(int argc, char **argv)
{
    static hk_scenario_t const scs[] = {
        { "archive", hkf_sc_archive, 400, 8000 },
    };
    ssize_t len = readlink("/proc/self/exe", hkf_tree_g, sizeof(hkf_tree_g) - 20);
    char *p;

    if (len < 0) {
        hk_error("readlink: %m");
    }
    hkf_tree_g[len] = '\0';
    /* <work>/bin/<harness> -> <work>/tree */
    p = strrchr(hkf_tree_g, '/');
    *p = '\0';
    p = strrchr(hkf_tree_g, '/');
    strcpy(p, "/tree");
    return hk_main(argc, argv, scs, countof(scs));
}
