/* A back end under control, installed as "clang" in a directory of its own.
 * It writes to its output which job it was given: the kind of the output,
 * the options, and the contents of its inputs.  $FAKE_DIR holds
 *   fail      numbers of the invocations that fail, one per line
 *   here-T    FIFO that is told when process T ($FAKE_TAG) gets here
 *   go-T      FIFO that lets it go on
 *   log       gets a line per invocation
 */
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>

static char path[4096];
static const char *in_dir(const char *name)
{
    snprintf(path, sizeof path, "%s/%s", getenv("FAKE_DIR") ? getenv("FAKE_DIR") : "/nonexistent", name);
    return path;
}

static int number(void)
{
    /* the number of this invocation */
    char buf[32] = {0};
    int fd = open(in_dir("count"), O_RDWR | O_CREAT, 0666), n;
    if (fd < 0)
        return 1;
    flock(fd, LOCK_EX);
    if (read(fd, buf, sizeof buf - 1) < 0)
        buf[0] = 0;
    n = atoi(buf) + 1;
    snprintf(buf, sizeof buf, "%d", n);
    lseek(fd, 0, SEEK_SET);
    if (write(fd, buf, strlen(buf)) < 0)
        perror("count");
    close(fd);
    return n;
}

int main(int argc, char **argv)
{
    const char *out = "a.out", *kind = "exe", *level = "0", *g = "";
    const char *dirs[256], *libs[256], *ins[256];
    int ndirs = 0, nlibs = 0, nins = 0, i, n, fails = 0;
    FILE *f, *o;
    for (i = 1; i < argc && i < 255; i++) {
        char *a = argv[i];
        if (!strcmp(a, "-o") && i + 1 < argc) out = argv[++i];
        else if (!strcmp(a, "-S")) kind = "s";
        else if (!strcmp(a, "-c")) kind = "o";
        else if (!strcmp(a, "-g")) g = "g";
        else if (!strncmp(a, "-O", 2)) level = a + 2;
        else if (!strcmp(a, "-L") && i + 1 < argc) dirs[ndirs++] = argv[++i];
        else if (!strncmp(a, "-L", 2)) dirs[ndirs++] = a + 2;
        else if (!strcmp(a, "-l") && i + 1 < argc) libs[nlibs++] = argv[++i];
        else if (!strncmp(a, "-l", 2)) libs[nlibs++] = a + 2;
        else if (a[0] == '-') continue;
        else ins[nins++] = a;
    }
    if ((f = fopen(in_dir("log"), "a"))) {
        for (i = 1; i < argc; i++)
            fprintf(f, "%s%c", argv[i], i + 1 < argc ? '\t' : '\n');
        fclose(f);
    }
    const char *tag = getenv("FAKE_TAG");
    if (tag) {
        char name[64], c;
        int fd;
        snprintf(name, sizeof name, "here-%s", tag);
        fd = open(in_dir(name), O_WRONLY);
        if (fd >= 0) {
            if (write(fd, "x", 1) < 0)
                perror("here");
            close(fd);
        }
        snprintf(name, sizeof name, "go-%s", tag);
        fd = open(in_dir(name), O_RDONLY);
        if (fd >= 0) {
            while (read(fd, &c, 1) < 0 && errno == EINTR)
                ;
            close(fd);
        }
    }
    n = number();
    if ((f = fopen(in_dir("fail"), "r"))) {
        int k;
        while (fscanf(f, "%d", &k) == 1)
            if (k == n)
                fails = 1;
        fclose(f);
    }
    if (fails || nins == 0) {
        fprintf(stderr, "clang: error: told to fail\n");
        return 1;
    }
    /* read everything before writing anything */
    static char *data[256];
    static long size[256];
    for (i = 0; i < nins; i++) {
        f = fopen(ins[i], "rb");
        if (!f) {
            fprintf(stderr, "clang: error: no such file or directory: '%s'\n", ins[i]);
            return 1;
        }
        data[i] = malloc(1 << 20);
        size[i] = fread(data[i], 1, 1 << 20, f);
        fclose(f);
    }
    o = fopen(out, "wb");
    if (!o) {
        fprintf(stderr, "clang: error: unable to open output file '%s'\n", out);
        return 1;
    }
    fprintf(o, "MADE %s %s %s.\n", kind, level, g);
    for (i = 0; i < ndirs; i++)
        fprintf(o, "L %s\n", dirs[i]);
    for (i = 0; i < nlibs; i++)
        fprintf(o, "l %s\n", libs[i]);
    for (i = 0; i < nins; i++) {
        const char *e = strrchr(ins[i], '.');
        fprintf(o, "IN %s %ld\n", e ? e : "-", size[i]);
        fwrite(data[i], 1, size[i], o);
        fputc('\n', o);
    }
    if (fclose(o) != 0)
        return 1;
    if (!strcmp(kind, "exe"))
        chmod(out, 0755);
    return 0;
}
