/* Classification of atoms by their name, for every name of up to four bytes (decides the summaries in pool.h). */
#include "vh.h"
#include "Narsese.h"
#include "Variable.h"
static bool named(char c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c >= '0' && c <= '9'); }
void h_names(void)
{
    Atom a = (Atom) nd_range(0, 3);
    char n[3][5];
    for(int i=0; i<3; i++) { for(int j=0; j<5; j++) { n[i][j] = j < 4 ? (char) nd_range(0, 127) : 0; Narsese_atomNames[i][j] = n[i][j]; } ASSUME(n[i][0] != 0); }
    char c0 = 0, c1 = 0;
    for(int i=0; i<3; i++) { if(a == i+1) { c0 = n[i][0]; c1 = n[i][1]; } }
    char q = (char) nd_range(1, 127);
    CHECK(Variable_isIndependentVariable(a) == (c0 == '$' && c1 != 0), "independent variables are the atoms named $...");
    CHECK(Variable_isDependentVariable(a) == (c0 == '#' && c1 != 0), "dependent variables are the atoms named #...");
    CHECK(Variable_isQueryVariable(a) == (c0 == '?' && c1 != 0), "question variables are the atoms named ?...");
    CHECK(Variable_isVariable(a) == ((c0 == '$' || c0 == '#' || c0 == '?') && c1 != 0), "variables are the atoms of the three kinds");
    CHECK(Narsese_copulaEquals(a, q) == (a != 0 && c0 == q && c1 == 0), "copulas and connectors are the atoms with exactly that name");
    CHECK(Narsese_isOperator(a) == (c0 == '^' && c1 != 0), "operators are the atoms named ^...");
    CHECK(Narsese_IsSimpleAtom(a) == (named(c0) || (c0 == '^' && c1 != 0)), "simple atoms are the named terms and the operators, never a copula");
    REACH("end");
}
