/* Library driver: linked into eprover with --wrap=Saturate.  The prover reads its options and problem as usual; instead
   of saturating, it executes the commands of the file named by VERIF_SCRIPT on the fully initialised proof state.
   One command per line, arguments separated by tabs, one line of output per command (prefixed "@"). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cco_proofproc.h>
#include <cco_scheduling.h>
#include <ccl_unit_simplify.h>
#include <ccl_condensation.h>
#include <ccl_context_sr.h>
#include <ccl_rewrite.h>
#include <ccl_tautologies.h>
#include <ccl_subsumption.h>
#include <ccl_garbage_coll.h>
#include <ccl_fcvindexing.h>
#include <ccl_subterm_index.h>
#include <ccl_overlap_index.h>
#include <cte_fp_index.h>
#include <cte_match_mgu_1-1.h>
#include <cto_orderings.h>
#include <che_litselection.h>

#define MAXC 4000
#define MAXA 64
static Clause_p   cl[MAXC];
static int        ncl = 0;
static ProofState_p   st;
static ProofControl_p co;
static TB_p           tb;
static FPIndex_p      fpi = NULL;
static Term_p         fpt[MAXC];
static int            nfp = 0;
static ClauseSet_p    plain = NULL;   /* clauses held outside every index, but known to the garbage collector */
static TB_p           tmpbank = NULL;

static Scanner_p scan(char *s)
{
   Scanner_p in = CreateScanner(StreamTypeInternalString, s, true, NULL, true);
   ScannerSetFormat(in, TSTPFormat);
   return in;
}

static Term_p term(char *s)
{
   Scanner_p in = scan(s);
   Term_p t = TBTermParse(in, tb);
   DestroyScanner(in);
   return t;
}

static void pt(Term_p t, DerefType d)
{
   TermPrint(stdout, t, tb->sig, d);
}

static void plits(Clause_p c)
{
   if(!c->literals)
   {
      printf("$false");
   }
   for(Eqn_p l = c->literals; l; l = l->next)
   {
      if(l->lterm == l->rterm)
      {
         pt(l->lterm, DEREF_NEVER);
         printf(EqnIsPositive(l) ? "=" : "!=");
         pt(l->rterm, DEREF_NEVER);
      }
      else
      {
         EqnTSTPPrint(stdout, l, true);
      }
      if(l->next)
      {
         printf("|");
      }
   }
}

static Clause_p clause(char *s)
{
   Scanner_p in = scan(s);
   Clause_p c = ClauseParse(in, tb);
   DestroyScanner(in);
   return c;
}

static void prep(Clause_p c)
{
   c->weight = ClauseStandardWeight(c);
   ClauseSubsumeOrderSortLits(c);
}

static ClauseSet_p set(char *s)
{
   switch(s[0])
   {
   case 'r': return st->processed_pos_rules;
   case 'e': return st->processed_pos_eqns;
   case 'n': return st->processed_neg_units;
   case 'm': return st->processed_non_units;
   default:  return plain;
   }
}

static void reclaim(int i)
{
   if(cl[i]->set)
   {
      ClauseSetExtractEntry(cl[i]);
   }
}

static void nofree(void *x)
{
}

static int idx(Clause_p c)
{
   for(int i = 0; i < ncl; i++)
   {
      if(cl[i] == c)
      {
         return i;
      }
   }
   return -2;
}

static Clause_p copy(int i)
{
   Clause_p c = ClauseCopy(cl[i], tb);
   prep(c);
   return c;
}

static void insert(ClauseSet_p s, Clause_p c)
{
   FVPackedClause_p p;
   if(s == plain)
   {
      ClauseSetInsert(s, c);
      return;
   }
   p = FVIndexPackClause(c, s->fvindex);
   ClauseSetIndexedInsert(s, p);
   FVUnpackClause(p);
}

static void dump(void)
{
   OCB_p o = co->ocb;
   Sig_p s = tb->sig;
   printf("@D{\"type\":%d,\"varw\":%ld,\"lits\":%d,\"syms\":[", (int)o->type, o->var_weight, (int)o->lit_cmp);
   for(FunCode f = s->internal_symbols + 1; f <= s->f_count; f++)
   {
      printf("%s[%ld,\"%s\",%d,%d,%ld]", f == s->internal_symbols + 1 ? "" : ",", f, SigFindName(s, f),
             SigFindArity(s, f), SigIsPredicate(s, f) ? 1 : 0,
             (o->type == KBO || o->type == KBO6) ? OCBFunWeight(o, f) : 0);
   }
   printf("],\"cmp\":[");
   for(FunCode f = s->internal_symbols + 1; f <= s->f_count; f++)
   {
      printf("%s[", f == s->internal_symbols + 1 ? "" : ",");
      for(FunCode g = s->internal_symbols + 1; g <= s->f_count; g++)
      {
         printf("%s%d", g == s->internal_symbols + 1 ? "" : ",", (int)OCBFunCompare(o, f, g));
      }
      printf("]");
   }
   printf("]}\n");
}

static void command(char **a, int n)
{
   char *c = a[0];
   OCB_p ocb = co->ocb;
   if(!strcmp(c, "DUMP"))
   {
      dump();
   }
   else if(!strcmp(c, "CLEARNAMES"))
   {
      VarBankClearExtNames(tb->vars);
      printf("@\n");
   }
   else if(!strcmp(c, "PAD"))
   {  /* n: use up n variables, so that the next ones get higher codes */
      for(int i = atoi(a[1]); i > 0; i--)
      {
         VarBankGetFreshVar(tb->vars, tb->sig->type_bank->i_type);
      }
      printf("@\n");
   }
   else if(!strcmp(c, "VAR"))
   {  /* name sort: declare a variable */
      Scanner_p in = scan(a[2]);
      VarBankExtNameAssertAllocSort(tb->vars, a[1], TypeBankParseType(in, tb->sig->type_bank));
      DestroyScanner(in);
      printf("@\n");
   }
   else if(!strcmp(c, "CMP"))
   {  /* s t [X u]*: compare s and t under the (idempotent) substitution, by dereferencing and on instances */
      Term_p s = term(a[1]), t = term(a[2]), si, ti;
      Subst_p sub = SubstAlloc();
      DerefType d = n > 3 ? DEREF_ALWAYS : DEREF_NEVER;
      for(int i = 3; i + 1 < n; i += 2)
      {
         Term_p v = term(a[i]), u = term(a[i+1]);
         if(!v->binding)
         {
            SubstAddBinding(sub, v, u);
         }
      }
      si = n > 3 ? TBInsertNoProps(tb, s, DEREF_ALWAYS) : s;
      ti = n > 3 ? TBInsertNoProps(tb, t, DEREF_ALWAYS) : t;
      int r1 = TOCompare(ocb, s, t, d, d), r2 = TOCompare(ocb, t, s, d, d);
      int g1 = TOGreater(ocb, s, t, d, d), g2 = TOGreater(ocb, t, s, d, d);
      SubstBacktrack(sub);
      int r3 = TOCompare(ocb, si, ti, DEREF_NEVER, DEREF_NEVER);
      printf("@C%d\t%d\t%d\t%d\t%d\t", r1, r2, g1, g2, r3);
      pt(si, DEREF_NEVER);
      printf("\t");
      pt(ti, DEREF_NEVER);
      printf("\n");
      SubstFree(sub);
   }
   else if(!strcmp(c, "MGU") || !strcmp(c, "MATCH"))
   {
      Term_p s = term(a[1]), t = term(a[2]);
      Subst_p sub = SubstAlloc();
      bool mgu = !strcmp(c, "MGU");
      bool res = mgu ? SubstMguComplete(s, t, sub) : SubstMatchComplete(s, t, sub);
      printf("@U%d\t", res);
      pt(s, DEREF_NEVER);
      printf("\t");
      pt(t, DEREF_NEVER);
      printf("\t");
      if(res)
      {
         Term_p si = mgu ? TBInsertNoProps(tb, s, DEREF_ALWAYS) : TBInsertNoProps(tb, s, DEREF_ONCE);
         Term_p ti = mgu ? TBInsertNoProps(tb, t, DEREF_ALWAYS) : t;
         PStackPointer k;
         for(k = 0; k < PStackGetSP(sub); k++)
         {
            Term_p v = PStackElementP(sub, k);
            pt(v, DEREF_NEVER);
            printf("=");
            pt(v->binding, mgu ? DEREF_ALWAYS : DEREF_NEVER);
            printf(";");
         }
         SubstBacktrack(sub);
         printf("\t");
         pt(si, DEREF_NEVER);
         printf("\t");
         pt(ti, DEREF_NEVER);
         printf("\t%d", si == ti);
      }
      else
      {
         printf("%ld", (long)PStackGetSP(sub));
      }
      printf("\n");
      SubstDelete(sub);
   }
   else if(!strcmp(c, "ADD"))
   {  /* clause: orient, sort, keep outside the indices */
      Clause_p k = clause(a[1]);
      ClauseOrientLiterals(ocb, k);
      prep(k);
      ClauseSetInsert(plain, k);
      cl[ncl] = k;
      printf("@A%d\t", ncl++);
      plits(k);
      printf("\t");
      for(Eqn_p l = k->literals; l; l = l->next)
      {
         printf("%d", EqnIsOriented(l) ? 1 : 0);
      }
      printf("\n");
   }
   else if(!strcmp(c, "SUB"))
   {
      printf("@S%d\n", ClauseSubsumesClause(cl[atoi(a[1])], cl[atoi(a[2])]));
   }
   else if(!strcmp(c, "INS"))
   {  /* set clause */
      int i = atoi(a[2]);
      ClauseSet_p s = set(a[1]);
      reclaim(i);
      if(s->demod_index)
      {
         SysDate d = ClauseSetListGetMaxDate(st->demods, FullRewrite);
         SysDateInc(&d);
         cl[i]->date = d;
         s->date = d;
      }
      insert(s, cl[i]);
      printf("@I%ld\n", ClauseSetCardinality(s));
   }
   else if(!strcmp(c, "DEL"))
   {  /* take the clause out of its (indexed) set */
      int i = atoi(a[1]);
      reclaim(i);
      ClauseSetInsert(plain, cl[i]);
      printf("@I\n");
   }
   else if(!strcmp(c, "FWSUB"))
   {
      Clause_p k = copy(atoi(a[2])), s;
      s = ClauseSetSubsumesClause(set(a[1]), k);
      printf("@F%d\n", s ? idx(s) : -1);
      ClauseFree(k);
   }
   else if(!strcmp(c, "UFWSUB"))
   {
      Clause_p k = copy(atoi(a[2])), s;
      s = UnitClauseSetSubsumesClause(set(a[1]), k);
      printf("@F%d\n", s ? idx(s) : -1);
      ClauseFree(k);
   }
   else if(!strcmp(c, "BWSUB"))
   {
      Clause_p k = copy(atoi(a[2]));
      PStack_p res = PStackAlloc();
      ClauseSetFindSubsumedClauses(set(a[1]), k, res);
      printf("@L");
      while(!PStackEmpty(res))
      {
         printf("%d ", idx(PStackPopP(res)));
      }
      printf("\n");
      PStackFree(res);
      ClauseFree(k);
   }
   else if(!strcmp(c, "VARIANT"))
   {
      Clause_p k = copy(atoi(a[2])), s;
      s = ClauseSetFindVariantClause(set(a[1]), k);
      printf("@F%d\n", s ? idx(s) : -1);
      ClauseFree(k);
   }
   else if(!strcmp(c, "PSR") || !strcmp(c, "NSR") || !strcmp(c, "COND") || !strcmp(c, "CSR"))
   {  /* set clause: simplified copy */
      Clause_p k = copy(atoi(a[2]));
      if(c[0] == 'P')
      {
         ClausePositiveSimplifyReflect(set(a[1]), k);
      }
      else if(c[0] == 'N')
      {
         ClauseNegativeSimplifyReflect(set(a[1]), k);
      }
      else if(!strcmp(c, "COND"))
      {
         Condense(k);
      }
      else
      {
         ClauseContextualSimplifyReflect(set(a[1]), k);
      }
      printf("@K");
      plits(k);
      printf("\n");
      ClauseFree(k);
   }
   else if(!strcmp(c, "TAUT"))
   {
      if(!tmpbank)
      {
         tmpbank = TBAlloc(tb->sig);
      }
      printf("@T%d\t%d\n", ClauseIsTautology(st->tmp_terms, cl[atoi(a[1])]), ClauseIsTrivial(cl[atoi(a[1])]));
   }
   else if(!strcmp(c, "UNIT"))
   {  /* set s t: FindTopSimplifyingUnit, FindSimplifyingUnit (positive) */
      Term_p s = term(a[2]), t = term(a[3]);
      ClausePos_p p1 = FindTopSimplifyingUnit(set(a[1]), s, t);
      ClausePos_p p2 = s == t ? NULL : FindSimplifyingUnit(set(a[1]), s, t, true);
      printf("@N%d\t%d\t", p1 ? idx(p1->clause) : -1, p2 ? idx(p2->clause) : -1);
      pt(s, DEREF_NEVER);
      printf("\t");
      pt(t, DEREF_NEVER);
      printf("\n");
   }
   else if(!strcmp(c, "PDT"))
   {  /* set term prefer_general: every demodulator side that matches */
      Term_p s = term(a[2]);
      Subst_p sub = SubstAlloc();
      ClausePos_p p;
      ClauseSet_p x = set(a[1]);
      PDTreeSearchInit(x->demod_index, s, PDTREE_IGNORE_NF_DATE, atoi(a[3]));
      printf("@P");
      while((p = PDTreeFindNextDemodulator(x->demod_index, sub)))
      {
         Term_p side = p->side == LeftSide ? p->literal->lterm : p->literal->rterm;
         printf("%d:%c:%d ", idx(p->clause), p->side == LeftSide ? 'l' : 'r',
                TBInsertNoProps(tb, side, DEREF_ONCE) == s);
      }
      PDTreeSearchExit(x->demod_index);
      SubstDelete(sub);
      printf("\t");
      pt(s, DEREF_NEVER);
      printf("\n");
   }
   else if(!strcmp(c, "NF"))
   {  /* level prefer restricted term */
      Term_p s = term(a[4]), t;
      RewriteLevel lv = atoi(a[1]) == 2 ? FullRewrite : RuleRewrite;
      t = TermComputeLINormalform(ocb, tb, s, st->demods, lv, atoi(a[2]), atoi(a[3]), false);
      printf("@R");
      pt(s, DEREF_NEVER);
      printf("\t");
      pt(t, DEREF_NEVER);
      printf("\n");
   }
   else if(!strcmp(c, "CNF"))
   {  /* level prefer clause */
      Clause_p k = copy(atoi(a[3]));
      RewriteLevel lv = atoi(a[1]) == 2 ? FullRewrite : RuleRewrite;
      ClauseComputeLINormalform(ocb, tb, k, st->demods, lv, atoi(a[2]), false);
      printf("@K");
      plits(k);
      printf("\n");
      ClauseFree(k);
   }
   else if(!strcmp(c, "BWIDX"))
   {  /* 1/0 clause: put into or take out of the backward rewriting and overlap indices */
      int i = atoi(a[2]);
      if(atoi(a[1]))
      {
         ClauseCondMarkMaximalTerms(ocb, cl[i]);
         GlobalIndicesInsertClause(&(st->gindices), cl[i], false);
      }
      else
      {
         GlobalIndicesDeleteClause(&(st->gindices), cl[i], false);
      }
      printf("@I\n");
   }
   else if(!strcmp(c, "BWRW"))
   {  /* demodulator clause: clauses in the index that it can rewrite */
      Clause_p d = cl[atoi(a[1])];
      PStack_p res = PStackAlloc();
      static SysDate now = 0;   /* every search gets a date of its own: terms found irreducible are marked with it */
      SysDate max = ClauseSetListGetMaxDate(st->demods, FullRewrite);
      now = SysDateMaximum(now, max);
      SysDateInc(&now);
      printf("@W");
      if(st->gindices.bw_rw_index)
      {
         FindRewritableClausesIndexed(ocb, st->gindices.bw_rw_index, res, d, now);
         while(!PStackEmpty(res))
         {
            printf("%d ", idx(PStackPopP(res)));
         }
      }
      else
      {
         printf("-");
      }
      printf("\n");
      PStackFree(res);
   }
   else if(!strcmp(c, "FPNEW"))
   {
      if(fpi)
      {
         FPIndexFree(fpi);
      }
      nfp = 0;
      fpi = FPIndexAlloc(GetFPIndexFunction(a[1]), tb->sig, nofree);
      printf("@I\n");
   }
   else if(!strcmp(c, "FPINS"))
   {
      Term_p s = term(a[1]);
      int i;
      for(i = 0; i < nfp && fpt[i] != s; i++)
      {
      }
      if(i == nfp)
      {
         fpt[nfp++] = s;
      }
      FPTree_p leaf = FPIndexInsert(fpi, s);
      leaf->payload = (void*)leaf;
      printf("@I%d\n", i);
   }
   else if(!strcmp(c, "FPDEL"))
   {
      Term_p s = term(a[1]);
      FPTree_p leaf = FPIndexFind(fpi, s);
      int i, j = -1, shared = 0;
      for(i = 0; i < nfp; i++)
      {
         if(fpt[i] == s)
         {
            j = i;
         }
         else if(FPIndexFind(fpi, fpt[i]) == leaf)
         {
            shared++;
         }
      }
      if(j >= 0)
      {
         memmove(fpt + j, fpt + j + 1, (nfp - j - 1)*sizeof(fpt[0]));
         nfp--;
         if(!shared)
         {
            leaf->payload = NULL;
            FPIndexDelete(fpi, s);
         }
      }
      printf("@I%d\n", j);
   }
   else if(!strcmp(c, "FPQ"))
   {  /* for every indexed term: leaf among the candidates for unification / for being an instance */
      Term_p s = term(a[1]);
      PStack_p u = PStackAlloc(), m = PStackAlloc();
      FPIndexFindUnifiable(fpi, s, u);
      FPIndexFindMatchable(fpi, s, m);
      printf("@Q");
      for(int i = 0; i < nfp; i++)
      {
         FPTree_p leaf = FPIndexFind(fpi, fpt[i]);
         int iu = 0, im = 0;
         void *pl = leaf ? leaf->payload : NULL;
         for(PStackPointer k = 0; k < PStackGetSP(u); k++)
         {
            iu |= PStackElementP(u, k) == pl;
         }
         for(PStackPointer k = 0; k < PStackGetSP(m); k++)
         {
            im |= PStackElementP(m, k) == pl;
         }
         printf("%d", pl ? (iu + 2*im) : 8);
      }
      printf("\n");
      PStackFree(u);
      PStackFree(m);
   }
   else if(!strcmp(c, "MAX"))
   {  /* clause: maximal literals */
      Clause_p k = ClauseCopy(cl[atoi(a[1])], tb);
      ClauseMarkMaximalTerms(ocb, k);
      printf("@M");
      plits(k);
      printf("\t");
      for(Eqn_p l = k->literals; l; l = l->next)
      {
         printf("%d", (EqnIsMaximal(l) ? 1 : 0) + (EqnIsStrictlyMaximal(l) ? 2 : 0) + (EqnIsOriented(l) ? 4 : 0));
      }
      printf("\n");
      ClauseFree(k);
   }
   else if(!strcmp(c, "SEL"))
   {  /* function clause */
      Clause_p k = ClauseCopy(cl[atoi(a[2])], tb);
      LiteralSelectionFun f = GetLitSelFun(a[1]);
      k->weight = ClauseStandardWeight(k);
      ClauseOrientLiterals(ocb, k);
      EqnListDelProp(k->literals, EPIsSelected);
      ClauseDelProp(k, CPIsOriented);
      if(k->neg_lit_no)
      {
         f(ocb, k);
      }
      printf("@M");
      plits(k);
      printf("\t");
      for(Eqn_p l = k->literals; l; l = l->next)
      {
         printf("%d", EqnIsSelected(l) ? 1 : 0);
      }
      printf("\n");
      ClauseFree(k);
   }
   else if(!strcmp(c, "GC"))
   {
      long rec;
      VarBankClearExtNames(tb->vars);
      rec = TBGCCollect(tb);
      printf("@G%ld\t%ld\t%ld\n", rec, TBTermNodes(tb), TBNonVarTermNodes(tb));
   }
   else if(!strcmp(c, "SHOW"))
   {
      printf("@K");
      plits(cl[atoi(a[1])]);
      printf("\n");
   }
   else if(!strcmp(c, "DROP"))
   {  /* free the clause */
      int i = atoi(a[1]);
      reclaim(i);
      ClauseFree(cl[i]);
      cl[i] = NULL;
      printf("@I\n");
   }
   else if(!strcmp(c, "SHARED"))
   {  /* two clauses: every literal's terms are the same cells */
      Clause_p x = cl[atoi(a[1])], y = cl[atoi(a[2])];
      Eqn_p l, m;
      int same = 1;
      for(l = x->literals, m = y->literals; l && m; l = l->next, m = m->next)
      {
         same &= l->lterm == m->lterm && l->rterm == m->rterm;
      }
      printf("@S%d\n", same && !l && !m);
   }
   else
   {
      printf("@?%s\n", c);
   }
}

Clause_p __wrap_Saturate(ProofState_p state, ProofControl_p control, long a1, long a2, long a3, long a4, long a5, long a6,
                         long a7);

Clause_p __wrap_Saturate(ProofState_p state, ProofControl_p control, long a1, long a2, long a3, long a4, long a5, long a6,
                         long a7)
{
   FILE *f = fopen(getenv("VERIF_SCRIPT"), "r");
   char *line = NULL, *arg[MAXA];
   size_t cap = 0;
   ssize_t len;
   static char obuf[1 << 16];

   setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
   st = state;
   co = control;
   tb = state->terms;
   plain = ClauseSetAlloc();
   TBGCRegisterClauseSet(tb, plain);
   while((len = getline(&line, &cap, f)) > 0)
   {
      int n = 0;
      if(line[len-1] == '\n')
      {
         line[len-1] = 0;
      }
      for(char *p = strtok(line, "\t"); p && n < MAXA; p = strtok(NULL, "\t"))
      {
         arg[n++] = p;
      }
      if(n)
      {
         command(arg, n);
      }
   }
   printf("@END\n");
   fflush(stdout);
   _exit(0);
   return NULL;
}
