/* Stands in for ostei_generator or ostei_deriv1_generator when create.py is
   asked for a high angular momentum of which only a few classes are wanted:
   the wanted classes (SIMINT_SPARSE="abcd;...") go to the real program, of the
   others only the names are declared. */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(int argc, char ** argv)
{
    static const char amc[] = "spdfghiklmnoqrtuvwxyz";
    const char * me = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
    int q[4] = {-1, -1, -1, -1}, perm = 0;
    const char * oh = NULL;
    for(int i = 1; i < argc; i++)
    {
        if(!strcmp(argv[i], "-q") && i + 4 < argc)
            for(int k = 0; k < 4; k++) q[k] = atoi(argv[i+1+k]);
        else if(!strcmp(argv[i], "-oh") && i + 1 < argc) oh = argv[i+1];
        else if(!strcmp(argv[i], "-p")) perm = 1;
    }
    const char * want = getenv("SIMINT_SPARSE");
    char key[8];
    int ok = want && oh;
    for(int k = 0; k < 4; k++) if(q[k] < 0 || q[k] > 9) ok = 0;
    snprintf(key, sizeof(key), "%d%d%d%d;", q[0] % 10, q[1] % 10, q[2] % 10, q[3] % 10);
    if(!ok || strstr(want, key))
    {
        char real[4096];
        snprintf(real, sizeof(real), "%s/%s", getenv("SIMINT_SPARSE_REAL"), me);
        argv[0] = real;
        execv(real, argv);
        return 127;
    }
    char buf[4096] = "", name[8][8];
    int n = 0;
    const char * base = strstr(me, "deriv1") ? "ostei_deriv1" : "ostei";
    for(int s = 0; s < (perm ? 8 : 1); s++)
    {
        int r[4] = {q[0], q[1], q[2], q[3]}, t, dup = 0;
        if(s & 1) { t = r[0]; r[0] = r[1]; r[1] = t; }
        if(s & 2) { t = r[2]; r[2] = r[3]; r[3] = t; }
        if(s & 4) { t = r[0]; r[0] = r[2]; r[2] = t; t = r[1]; r[1] = r[3]; r[3] = t; }
        snprintf(name[n], sizeof(name[n]), "%c_%c_%c_%c", amc[r[0]], amc[r[1]], amc[r[2]], amc[r[3]]);
        for(int k = 0; k < n; k++) if(!strcmp(name[k], name[n])) dup = 1;
        if(dup) continue;
        snprintf(buf + strlen(buf), sizeof(buf) - strlen(buf), "int %s_%s();\n", base, name[n]);
        n++;
    }
    int fd = open(oh, O_WRONLY | O_APPEND);
    if(fd < 0 || write(fd, buf, strlen(buf)) != (ssize_t)strlen(buf)) return 3;
    close(fd);
    return 0;
}
