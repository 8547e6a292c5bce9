// Prints the oracle's values for shells read from stdin (see selftest.py).
#include "../src/oracle.h"
#include <cstdio>
#include <cstring>
int main()
{
    char w[32];
    while(scanf("%31s", w) == 1)
    {
        if(!strcmp(w, "boys"))
        {
            double x; int n; if(scanf("%lf %d", &x, &n) != 2) return 1;
            double hi[64], lo[64]; o_boys(x, n, hi, lo);
            for(int i = 0; i <= n; i++) printf("%a %a ", hi[i], lo[i]);
            printf("\n");
            continue;
        }
        const bool two = !strcmp(w, "eri") || !strcmp(w, "deriv");
        double Z = 0, zc[3] = {0,0,0};
        if(!strcmp(w, "pot") && scanf("%lf %lf %lf %lf", &Z, zc, zc+1, zc+2) != 4) return 1;
        OShell s[4];
        for(int k = 0; k < (two ? 4 : 2); k++)
        {
            int n;
            if(scanf("%d %d %lf %lf %lf", &s[k].am, &n, &s[k].x, &s[k].y, &s[k].z) != 5) return 1;
            for(int i = 0; i < n; i++) { double a, c; if(scanf("%lf %lf", &a, &c) != 2) return 1; s[k].alpha.push_back(a); s[k].coef.push_back(c); }
        }
        ORef r;
        if(!strcmp(w, "eri")) o_eri(s[0], s[1], s[2], s[3], r);
        else if(!strcmp(w, "deriv")) o_eri_deriv(s[0], s[1], s[2], s[3], r);
        else if(!strcmp(w, "ovl")) o_overlap(s[0], s[1], r);
        else if(!strcmp(w, "ke")) o_ke(s[0], s[1], r);
        else if(!strcmp(w, "pot")) o_potential(1, &Z, zc, zc+1, zc+2, s[0], s[1], r);
        else return 1;
        for(size_t i = 0; i < r.hi.size(); i++) printf("%a %a ", r.hi[i], r.lo.empty() ? 0.0 : r.lo[i]);
        printf("\n");
    }
}
