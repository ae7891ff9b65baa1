/* One-call interface to the system's PicoSAT (not the copy in /repo): clauses as one flat 0-terminated array. */
typedef struct PicoSAT PicoSAT;
extern PicoSAT *picosat_init(void);
extern void picosat_reset(PicoSAT *);
extern int picosat_add(PicoSAT *, int);
extern int picosat_sat(PicoSAT *, int);
extern int picosat_deref(PicoSAT *, int);

int satlib_solve(const int *lits, long n, int nv, int decision_limit, signed char *model)
{
   PicoSAT *p = picosat_init();
   long i;
   int r;
   for(i = 0; i < n; i++)
   {
      picosat_add(p, lits[i]);
   }
   r = picosat_sat(p, decision_limit);
   if(r == 10)
   {
      for(i = 1; i <= nv; i++)
      {
         model[i] = (signed char)picosat_deref(p, (int)i);
      }
   }
   picosat_reset(p);
   return r;
}
