// The dispatch tables of the library at any maximum angular momentum, observed
// with stand-ins for the generated routines that only say which class they are.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "simint/simint_init.h"
#include "simint/ostei/ostei.h"
#include "simint/ostei/ostei_config.h"

int main(void)
{
    static const char am[] = "spdfghik";
    long evals = 0, bad = 0;
    struct simint_multi_shellpair P, Q;
    memset(&P, 0, sizeof(P));
    memset(&Q, 0, sizeof(Q));
    P.nshell12 = P.nshell12_clip = Q.nshell12 = Q.nshell12_clip = 1;
    P.screen_max = Q.screen_max = 1.e99;
    simint_init();
    for(int round = 0; round < 3; round++)
    {
        for(int d = 0; d <= SIMINT_OSTEI_MAXDER; d++)
        for(int i = 0; i <= SIMINT_OSTEI_MAXAM; i++)
        for(int j = 0; j <= SIMINT_OSTEI_MAXAM; j++)
        for(int k = 0; k <= SIMINT_OSTEI_MAXAM; k++)
        for(int l = 0; l <= SIMINT_OSTEI_MAXAM; l++)
        {
            const int want = (((d*8 + i)*8 + j)*8 + k)*8 + l + 1;
            double w[8], r[8];
            extern simint_osteifunc simint_osteifunc_array[SIMINT_OSTEI_MAXDER+1][SIMINT_OSTEI_MAXAM+1][SIMINT_OSTEI_MAXAM+1][SIMINT_OSTEI_MAXAM+1][SIMINT_OSTEI_MAXAM+1];
            P.am1 = i; P.am2 = j; Q.am1 = k; Q.am2 = l;
            int got = 0;
            if(simint_osteifunc_array[d][i][j][k][l] != NULL)
                got = (d ? simint_compute_ostei_deriv(d, &P, &Q, 0.0, w, r) : simint_compute_ostei(&P, &Q, 0.0, w, r));
            evals++;
            if(got != want)
            {
                if(bad++ < 5)
                {
                    if(!got)
                        printf("@@{\"t\":\"viol\",\"key\":\"dispatch:%c%c%c%c\",\"msg\":\"derivative order %d of (%c%c|%c%c) is not available in a library for maximum angular momentum %d\"}\n",
                               am[i], am[j], am[k], am[l], d, am[i], am[j], am[k], am[l], SIMINT_OSTEI_MAXAM);
                    else
                    {
                        const int g = got - 1;
                        printf("@@{\"t\":\"viol\",\"key\":\"dispatch:%c%c%c%c\",\"msg\":\"derivative order %d of (%c%c|%c%c) is computed by the routine of order %d of (%c%c|%c%c) (maximum angular momentum %d)\"}\n",
                               am[i], am[j], am[k], am[l], d, am[i], am[j], am[k], am[l],
                               g >> 12, am[(g >> 9) & 7], am[(g >> 6) & 7], am[(g >> 3) & 7], am[g & 7], SIMINT_OSTEI_MAXAM);
                    }
                }
            }
        }
        if(round == 0)
            simint_init();
        else if(round == 1)
        {
            simint_finalize();
            simint_init();
        }
    }
    printf("@@{\"t\":\"stat\",\"evals\":%ld,\"distinct\":[],\"stats\":{\"dispatch_table_entries_checked\":%ld}}\n", evals, evals);
    printf("@@{\"t\":\"done\"}\n");
    return 0;
}
