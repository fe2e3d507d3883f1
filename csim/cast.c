/* Stand-in for the chain client: writes its arguments to a file, answers as a plan says. In the directory given by VERIF_CAST:
   calls: appended, per call "C", number of arguments, lengths and arguments; answer: exit code or minus a signal, length of stdout, of stderr, both. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

int main(int argc, char **argv) {
    const char *d = getenv("VERIF_CAST");
    char p[4096], *buf;
    size_t n = 64, at;
    int i, f, code;
    long lo, le;
    if (!d) return 99;
    for (i = 1; i < argc; i++) n += strlen(argv[i]) + 32;
    buf = malloc(n);
    at = sprintf(buf, "C %d\n", argc - 1);
    for (i = 1; i < argc; i++) {
        at += sprintf(buf + at, "%zu ", strlen(argv[i]));
        memcpy(buf + at, argv[i], strlen(argv[i]));
        at += strlen(argv[i]);
        buf[at++] = '\n';
    }
    snprintf(p, sizeof p, "%s/calls", d);
    f = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (f < 0 || write(f, buf, at) != (ssize_t)at) return 98;
    close(f);
    snprintf(p, sizeof p, "%s/answer", d);
    FILE *a = fopen(p, "rb");
    if (!a || fscanf(a, "%d %ld %ld", &code, &lo, &le) != 3 || fgetc(a) != '\n') return 97;
    char *o = malloc(lo + 1), *e = malloc(le + 1);
    if (fread(o, 1, lo, a) != (size_t)lo || fread(e, 1, le, a) != (size_t)le) return 96;
    /* half of the answer, all errors, the rest */
    fwrite(o, 1, lo / 2, stdout); fflush(stdout);
    fwrite(e, 1, le, stderr); fflush(stderr);
    fwrite(o + lo / 2, 1, lo - lo / 2, stdout); fflush(stdout);
    if (code < 0) { signal(-code, SIG_DFL); kill(getpid(), -code); pause(); }
    return code;
}
