/* generated by lib/nalrules.py from its rule specification; not from the code under test */
#if CASE == 0
#define NL 4
#define NE 36
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,':') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[1]==l[2], S(0,':') L(1,0) L(2,3), Truth_Deduction(t1,t2), false) \
  E(1, l[0]==l[3], S(0,':') L(1,2) L(2,1), Truth_Deduction(t2,t1), false) \
  E(2, l[0]==l[2], S(0,':') L(1,3) L(2,1), Truth_Induction(t1,t2), false) \
  E(3, l[0]==l[2], S(0,':') L(1,1) L(2,3), Truth_Induction(t2,t1), false) \
  E(4, l[1]==l[3], S(0,':') L(1,2) L(2,0), Truth_Abduction(t1,t2), false) \
  E(5, l[1]==l[3], S(0,':') L(1,0) L(2,2), Truth_Abduction(t2,t1), false) \
  E(6, l[1]==l[2], S(0,':') L(1,3) L(2,0), Truth_Exemplification(t1,t2), false) \
  E(7, l[0]==l[3], S(0,':') L(1,1) L(2,2), Truth_Exemplification(t2,t1), false) \
  E(8, l[1]==l[3], S(0,'=') L(1,2) L(2,0), Truth_Comparison(t1,t2), false) \
  E(9, l[1]==l[3], S(0,'=') L(1,0) L(2,2), Truth_Comparison(t2,t1), false) \
  E(10, l[0]==l[2], S(0,'=') L(1,3) L(2,1), Truth_Comparison(t1,t2), false) \
  E(11, l[0]==l[2], S(0,'=') L(1,1) L(2,3), Truth_Comparison(t2,t1), false) \
  E(12, l[1]==l[3], S(0,':') S(1,'|') L(2,1) L(3,0) L(4,2), Truth_Intersection(t1,t2), false) \
  E(13, l[1]==l[3], S(0,':') S(1,'|') L(2,3) L(3,2) L(4,0), Truth_Intersection(t2,t1), false) \
  E(14, l[1]==l[3], S(0,':') S(1,'&') L(2,1) L(3,0) L(4,2), Truth_Union(t1,t2), false) \
  E(15, l[1]==l[3], S(0,':') S(1,'&') L(2,3) L(3,2) L(4,0), Truth_Union(t2,t1), false) \
  E(16, l[1]==l[3], S(0,':') S(1,'~') L(2,1) L(3,0) L(4,2), Truth_Difference(t1,t2), false) \
  E(17, l[1]==l[3], S(0,':') S(1,'~') L(2,3) L(3,2) L(4,0), Truth_Difference(t2,t1), false) \
  E(18, l[0]==l[2], S(0,':') L(1,0) S(2,'&') L(5,1) L(6,3), Truth_Intersection(t1,t2), false) \
  E(19, l[0]==l[2], S(0,':') L(1,2) S(2,'&') L(5,3) L(6,1), Truth_Intersection(t2,t1), false) \
  E(20, l[0]==l[2], S(0,':') L(1,0) S(2,'|') L(5,1) L(6,3), Truth_Union(t1,t2), false) \
  E(21, l[0]==l[2], S(0,':') L(1,2) S(2,'|') L(5,3) L(6,1), Truth_Union(t2,t1), false) \
  E(22, l[0]==l[2], S(0,':') L(1,0) S(2,'-') L(5,1) L(6,3), Truth_Difference(t1,t2), false) \
  E(23, l[0]==l[2], S(0,':') L(1,2) S(2,'-') L(5,3) L(6,1), Truth_Difference(t2,t1), false) \
  E(24, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,3) L(5,0) L(6,1), Truth_Induction(t1,t2), true) \
  E(25, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) L(6,3), Truth_Induction(t2,t1), true) \
  E(26, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,3) L(5,0) L(6,1), Truth_Comparison(t1,t2), true) \
  E(27, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) L(6,3), Truth_Comparison(t2,t1), true) \
  E(28, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,0) L(4,3) L(5,0) L(6,1), Truth_Intersection(t1,t2), true) \
  E(29, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) L(6,3), Truth_Intersection(t2,t1), true) \
  E(30, l[1]==l[3], S(0,'?') S(1,':') S(2,':') L(3,2) L(4,1) L(5,0) L(6,1), Truth_Induction(t1,t2), true) \
  E(31, l[1]==l[3], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,3) L(5,2) L(6,3), Truth_Induction(t2,t1), true) \
  E(32, l[1]==l[3], S(0,'^') S(1,':') S(2,':') L(3,2) L(4,1) L(5,0) L(6,1), Truth_Comparison(t1,t2), true) \
  E(33, l[1]==l[3], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,3) L(5,2) L(6,3), Truth_Comparison(t2,t1), true) \
  E(34, l[1]==l[3], S(0,';') S(1,':') S(2,':') L(3,2) L(4,1) L(5,0) L(6,1), Truth_Intersection(t1,t2), true) \
  E(35, l[1]==l[3], S(0,';') S(1,':') S(2,':') L(3,0) L(4,3) L(5,2) L(6,3), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 1
#define NL 2
#define NE 1
#define DOUBLE false
#define TERM1 S(0,'=') L(1,0) L(2,1)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,'=') L(1,1) L(2,0), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 2
#define NL 4
#define NE 2
#define DOUBLE true
#define TERM1 S(0,'=') L(1,0) L(2,1)
#define TERM2 S(0,'=') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[0]==l[3], S(0,'=') L(1,2) L(2,1), Truth_Resemblance(t1,t2), false) \
  E(1, l[1]==l[2], S(0,'=') L(1,0) L(2,3), Truth_Resemblance(t2,t1), false) \

#endif
#if CASE == 3
#define NL 4
#define NE 2
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,'=') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[0]==l[3], S(0,':') L(1,2) L(2,1), Truth_Analogy(t1,t2), false) \
  E(1, l[1]==l[3], S(0,':') L(1,0) L(2,2), Truth_Analogy(t1,t2), false) \

#endif
#if CASE == 4
#define NL 4
#define NE 2
#define DOUBLE true
#define TERM1 S(0,'=') L(1,0) L(2,1)
#define TERM2 S(0,':') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[1]==l[2], S(0,':') L(1,0) L(2,3), Truth_Analogy(t2,t1), false) \
  E(1, l[1]==l[3], S(0,':') L(1,2) L(2,0), Truth_Analogy(t2,t1), false) \

#endif
#if CASE == 5
#define NL 3
#define NE 2
#define DOUBLE true
#define TERM1 L(0,0)
#define TERM2 S(0,':') L(1,1) L(2,2)
#define EXPECTS \
  E(0, l[0]==l[1], L(0,2), Truth_Deduction(t1,t2), false) \
  E(1, l[0]==l[2], L(0,1), Truth_Abduction(t1,t2), false) \

#endif
#if CASE == 6
#define NL 3
#define NE 2
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 L(0,2)
#define EXPECTS \
  E(0, l[0]==l[2], L(0,1), Truth_Deduction(t2,t1), false) \
  E(1, l[1]==l[2], L(0,0), Truth_Abduction(t2,t1), false) \

#endif
#if CASE == 7
#define NL 3
#define NE 2
#define DOUBLE true
#define TERM1 L(0,0)
#define TERM2 S(0,'=') L(1,1) L(2,2)
#define EXPECTS \
  E(0, l[0]==l[1], L(0,2), Truth_Analogy(t1,t2), false) \
  E(1, l[0]==l[2], L(0,1), Truth_Analogy(t1,t2), false) \

#endif
#if CASE == 8
#define NL 3
#define NE 2
#define DOUBLE true
#define TERM1 S(0,'=') L(1,0) L(2,1)
#define TERM2 L(0,2)
#define EXPECTS \
  E(0, l[0]==l[2], L(0,1), Truth_Analogy(t2,t1), false) \
  E(1, l[1]==l[2], L(0,0), Truth_Analogy(t2,t1), false) \

#endif
#if CASE == 9
#define NL 2
#define NE 1
#define DOUBLE false
#define TERM1 S(0,':') L(1,0) S(2,'"') L(5,1) S(6,'@')
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,'=') L(1,0) S(2,'"') L(5,1) S(6,'@'), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 10
#define NL 2
#define NE 1
#define DOUBLE false
#define TERM1 S(0,':') S(1,'\'') L(2,1) L(3,0) S(4,'@')
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,'=') S(1,'\'') L(2,1) L(3,0) S(4,'@'), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 11
#define NL 4
#define NE 2
#define DOUBLE true
#define TERM1 S(0,':') S(1,'"') L(2,1) L(3,0) S(4,'@')
#define TERM2 S(0,'=') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[1]==l[3], S(0,':') S(1,'"') L(2,2) L(3,0) S(4,'@'), Truth_Analogy(t1,t2), false) \
  E(1, l[0]==l[3], S(0,':') S(1,'"') L(2,1) L(3,2) S(4,'@'), Truth_Analogy(t1,t2), false) \

#endif
#if CASE == 12
#define NL 4
#define NE 2
#define DOUBLE true
#define TERM1 S(0,'=') L(1,0) L(2,1)
#define TERM2 S(0,':') S(1,'"') L(2,3) L(3,2) S(4,'@')
#define EXPECTS \
  E(0, l[1]==l[3], S(0,':') S(1,'"') L(2,0) L(3,2) S(4,'@'), Truth_Analogy(t2,t1), false) \
  E(1, l[1]==l[2], S(0,':') S(1,'"') L(2,3) L(3,0) S(4,'@'), Truth_Analogy(t2,t1), false) \

#endif
#if CASE == 13
#define NL 4
#define NE 2
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) S(2,'\'') L(5,1) S(6,'@')
#define TERM2 S(0,'=') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[0]==l[3], S(0,':') L(1,2) S(2,'\'') L(5,1) S(6,'@'), Truth_Analogy(t1,t2), false) \
  E(1, l[1]==l[3], S(0,':') L(1,0) S(2,'\'') L(5,2) S(6,'@'), Truth_Analogy(t1,t2), false) \

#endif
#if CASE == 14
#define NL 4
#define NE 2
#define DOUBLE true
#define TERM1 S(0,'=') L(1,0) L(2,1)
#define TERM2 S(0,':') L(1,2) S(2,'\'') L(5,3) S(6,'@')
#define EXPECTS \
  E(0, l[1]==l[2], S(0,':') L(1,0) S(2,'\'') L(5,3) S(6,'@'), Truth_Analogy(t2,t1), false) \
  E(1, l[1]==l[3], S(0,':') L(1,2) S(2,'\'') L(5,0) S(6,'@'), Truth_Analogy(t2,t1), false) \

#endif
#if CASE == 15
#define NL 2
#define NE 2
#define DOUBLE false
#define TERM1 S(0,'=') S(1,'"') S(2,'"') L(3,0) S(4,'@') L(5,1) S(6,'@')
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,'=') S(1,'"') S(2,'"') L(3,1) S(4,'@') L(5,0) S(6,'@'), Truth_StructuralIntersection(t1,t2), false) \
  E(1, true, S(0,'=') L(1,0) L(2,1), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 16
#define NL 2
#define NE 2
#define DOUBLE false
#define TERM1 S(0,'=') S(1,'\'') S(2,'\'') L(3,0) S(4,'@') L(5,1) S(6,'@')
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,'=') S(1,'\'') S(2,'\'') L(3,1) S(4,'@') L(5,0) S(6,'@'), Truth_StructuralIntersection(t1,t2), false) \
  E(1, true, S(0,'=') L(1,0) L(2,1), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 17
#define NL 3
#define NE 2
#define DOUBLE false
#define TERM1 S(0,':') S(1,'"') L(2,2) L(3,0) L(4,1)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') S(1,'"') L(2,2) L(3,0) S(4,'@'), Truth_StructuralDeduction(t1,t2), false) \
  E(1, true, S(0,':') S(1,'"') L(2,2) L(3,1) S(4,'@'), Truth_StructuralDeduction(t1,t2), false) \

#endif
#if CASE == 18
#define NL 3
#define NE 2
#define DOUBLE false
#define TERM1 S(0,':') L(1,0) S(2,'\'') L(5,1) L(6,2)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) S(2,'\'') L(5,1) S(6,'@'), Truth_StructuralDeduction(t1,t2), false) \
  E(1, true, S(0,':') L(1,0) S(2,'\'') L(5,2) S(6,'@'), Truth_StructuralDeduction(t1,t2), false) \

#endif
#if CASE == 19
#define NL 3
#define NE 2
#define DOUBLE false
#define TERM1 S(0,':') S(1,'|') L(2,2) L(3,0) L(4,1)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) L(2,2), Truth_StructuralDeduction(t1,t2), false) \
  E(1, true, S(0,':') L(1,1) L(2,2), Truth_StructuralDeduction(t1,t2), false) \

#endif
#if CASE == 20
#define NL 3
#define NE 2
#define DOUBLE false
#define TERM1 S(0,':') L(1,0) S(2,'&') L(5,1) L(6,2)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) L(2,1), Truth_StructuralDeduction(t1,t2), false) \
  E(1, true, S(0,':') L(1,0) L(2,2), Truth_StructuralDeduction(t1,t2), false) \

#endif
#if CASE == 21
#define NL 3
#define NE 2
#define DOUBLE false
#define TERM1 S(0,':') S(1,'~') L(2,2) L(3,0) L(4,1)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) L(2,2), Truth_StructuralDeduction(t1,t2), false) \
  E(1, true, S(0,':') L(1,1) L(2,2), Truth_StructuralDeductionNegated(t1,t2), false) \

#endif
#if CASE == 22
#define NL 3
#define NE 2
#define DOUBLE false
#define TERM1 S(0,':') L(1,0) S(2,'-') L(5,1) L(6,2)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) L(2,1), Truth_StructuralDeduction(t1,t2), false) \
  E(1, true, S(0,':') L(1,0) L(2,2), Truth_StructuralDeductionNegated(t1,t2), false) \

#endif
#if CASE == 23
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,':') S(1,'|') L(2,4) L(3,2) L(4,3)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,':') S(1,'|') L(2,1) L(3,2) L(4,3), Truth_Deduction(t2,t1), false) \
  E(1, l[1]==l[4], S(0,':') S(1,'|') L(2,0) L(3,2) L(4,3), Truth_Abduction(t1,t2), false) \
  E(2, l[1]==l[4], S(0,':') L(1,0) S(2,'|') L(5,2) L(6,3), Truth_Abduction(t2,t1), false) \
  E(3, l[0]==l[4], S(0,':') L(1,1) S(2,'|') L(5,2) L(6,3), Truth_Exemplification(t2,t1), false) \
  E(4, l[1]==l[4], S(0,'=') S(1,'|') L(2,0) L(3,2) L(4,3), Truth_Comparison(t1,t2), false) \
  E(5, l[1]==l[4], S(0,'=') L(1,0) S(2,'|') L(5,2) L(6,3), Truth_Comparison(t2,t1), false) \
  E(6, l[1]==l[4], S(0,':') S(1,'|') L(2,1) L(3,0) S(4,'|') L(9,2) L(10,3), Truth_Intersection(t1,t2), false) \
  E(7, l[1]==l[4], S(0,':') S(1,'|') L(2,4) S(3,'|') L(4,0) L(7,2) L(8,3), Truth_Intersection(t2,t1), false) \
  E(8, l[1]==l[4], S(0,':') S(1,'&') L(2,1) L(3,0) S(4,'|') L(9,2) L(10,3), Truth_Union(t1,t2), false) \
  E(9, l[1]==l[4], S(0,':') S(1,'&') L(2,4) S(3,'|') L(4,0) L(7,2) L(8,3), Truth_Union(t2,t1), false) \
  E(10, l[1]==l[4], S(0,':') S(1,'~') L(2,1) L(3,0) S(4,'|') L(9,2) L(10,3), Truth_Difference(t1,t2), false) \
  E(11, l[1]==l[4], S(0,':') S(1,'~') L(2,4) S(3,'|') L(4,0) L(7,2) L(8,3), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[2] && l[1]==l[4], S(0,':') L(1,3) L(2,1), Truth_DecomposePNN(t1,t2), false) \
  E(13, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,2) L(2,1), Truth_DecomposePNN(t1,t2), false) \
  E(14, l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'|') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Induction(t1,t2), true) \
  E(15, l[1]==l[4], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'|') L(6,4) L(11,2) L(12,3), Truth_Induction(t2,t1), true) \
  E(16, l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'|') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Comparison(t1,t2), true) \
  E(17, l[1]==l[4], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'|') L(6,4) L(11,2) L(12,3), Truth_Comparison(t2,t1), true) \
  E(18, l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'|') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Intersection(t1,t2), true) \
  E(19, l[1]==l[4], S(0,';') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'|') L(6,4) L(11,2) L(12,3), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 24
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') S(1,'|') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,':') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[2]==l[3], S(0,':') S(1,'|') L(2,4) L(3,0) L(4,1), Truth_Deduction(t1,t2), false) \
  E(1, l[2]==l[4], S(0,':') L(1,3) S(2,'|') L(5,0) L(6,1), Truth_Abduction(t1,t2), false) \
  E(2, l[2]==l[4], S(0,':') S(1,'|') L(2,3) L(3,0) L(4,1), Truth_Abduction(t2,t1), false) \
  E(3, l[2]==l[3], S(0,':') L(1,4) S(2,'|') L(5,0) L(6,1), Truth_Exemplification(t1,t2), false) \
  E(4, l[2]==l[4], S(0,'=') L(1,3) S(2,'|') L(5,0) L(6,1), Truth_Comparison(t1,t2), false) \
  E(5, l[2]==l[4], S(0,'=') S(1,'|') L(2,3) L(3,0) L(4,1), Truth_Comparison(t2,t1), false) \
  E(6, l[2]==l[4], S(0,':') S(1,'|') L(2,2) S(3,'|') L(4,3) L(7,0) L(8,1), Truth_Intersection(t1,t2), false) \
  E(7, l[2]==l[4], S(0,':') S(1,'|') L(2,4) L(3,3) S(4,'|') L(9,0) L(10,1), Truth_Intersection(t2,t1), false) \
  E(8, l[2]==l[4], S(0,':') S(1,'&') L(2,2) S(3,'|') L(4,3) L(7,0) L(8,1), Truth_Union(t1,t2), false) \
  E(9, l[2]==l[4], S(0,':') S(1,'&') L(2,4) L(3,3) S(4,'|') L(9,0) L(10,1), Truth_Union(t2,t1), false) \
  E(10, l[2]==l[4], S(0,':') S(1,'~') L(2,2) S(3,'|') L(4,3) L(7,0) L(8,1), Truth_Difference(t1,t2), false) \
  E(11, l[2]==l[4], S(0,':') S(1,'~') L(2,4) L(3,3) S(4,'|') L(9,0) L(10,1), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[3] && l[2]==l[4], S(0,':') L(1,1) L(2,4), Truth_DecomposePNN(t2,t1), false) \
  E(13, l[1]==l[3] && l[2]==l[4], S(0,':') L(1,0) L(2,4), Truth_DecomposePNN(t2,t1), false) \
  E(14, l[2]==l[4], S(0,'?') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'|') L(6,2) L(11,0) L(12,1), Truth_Induction(t1,t2), true) \
  E(15, l[2]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'|') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Induction(t2,t1), true) \
  E(16, l[2]==l[4], S(0,'^') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'|') L(6,2) L(11,0) L(12,1), Truth_Comparison(t1,t2), true) \
  E(17, l[2]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'|') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Comparison(t2,t1), true) \
  E(18, l[2]==l[4], S(0,';') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'|') L(6,2) L(11,0) L(12,1), Truth_Intersection(t1,t2), true) \
  E(19, l[2]==l[4], S(0,';') S(1,':') S(2,':') S(3,'|') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 25
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,':') S(1,'&') L(2,4) L(3,2) L(4,3)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,':') S(1,'&') L(2,1) L(3,2) L(4,3), Truth_Deduction(t2,t1), false) \
  E(1, l[1]==l[4], S(0,':') S(1,'&') L(2,0) L(3,2) L(4,3), Truth_Abduction(t1,t2), false) \
  E(2, l[1]==l[4], S(0,':') L(1,0) S(2,'&') L(5,2) L(6,3), Truth_Abduction(t2,t1), false) \
  E(3, l[0]==l[4], S(0,':') L(1,1) S(2,'&') L(5,2) L(6,3), Truth_Exemplification(t2,t1), false) \
  E(4, l[1]==l[4], S(0,'=') S(1,'&') L(2,0) L(3,2) L(4,3), Truth_Comparison(t1,t2), false) \
  E(5, l[1]==l[4], S(0,'=') L(1,0) S(2,'&') L(5,2) L(6,3), Truth_Comparison(t2,t1), false) \
  E(6, l[1]==l[4], S(0,':') S(1,'|') L(2,1) L(3,0) S(4,'&') L(9,2) L(10,3), Truth_Intersection(t1,t2), false) \
  E(7, l[1]==l[4], S(0,':') S(1,'|') L(2,4) S(3,'&') L(4,0) L(7,2) L(8,3), Truth_Intersection(t2,t1), false) \
  E(8, l[1]==l[4], S(0,':') S(1,'&') L(2,1) L(3,0) S(4,'&') L(9,2) L(10,3), Truth_Union(t1,t2), false) \
  E(9, l[1]==l[4], S(0,':') S(1,'&') L(2,4) S(3,'&') L(4,0) L(7,2) L(8,3), Truth_Union(t2,t1), false) \
  E(10, l[1]==l[4], S(0,':') S(1,'~') L(2,1) L(3,0) S(4,'&') L(9,2) L(10,3), Truth_Difference(t1,t2), false) \
  E(11, l[1]==l[4], S(0,':') S(1,'~') L(2,4) S(3,'&') L(4,0) L(7,2) L(8,3), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[2] && l[1]==l[4], S(0,':') L(1,3) L(2,1), Truth_DecomposeNPP(t1,t2), false) \
  E(13, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,2) L(2,1), Truth_DecomposeNPP(t1,t2), false) \
  E(14, l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'&') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Induction(t1,t2), true) \
  E(15, l[1]==l[4], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'&') L(6,4) L(11,2) L(12,3), Truth_Induction(t2,t1), true) \
  E(16, l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'&') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Comparison(t1,t2), true) \
  E(17, l[1]==l[4], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'&') L(6,4) L(11,2) L(12,3), Truth_Comparison(t2,t1), true) \
  E(18, l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'&') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Intersection(t1,t2), true) \
  E(19, l[1]==l[4], S(0,';') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'&') L(6,4) L(11,2) L(12,3), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 26
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') S(1,'&') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,':') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[2]==l[3], S(0,':') S(1,'&') L(2,4) L(3,0) L(4,1), Truth_Deduction(t1,t2), false) \
  E(1, l[2]==l[4], S(0,':') L(1,3) S(2,'&') L(5,0) L(6,1), Truth_Abduction(t1,t2), false) \
  E(2, l[2]==l[4], S(0,':') S(1,'&') L(2,3) L(3,0) L(4,1), Truth_Abduction(t2,t1), false) \
  E(3, l[2]==l[3], S(0,':') L(1,4) S(2,'&') L(5,0) L(6,1), Truth_Exemplification(t1,t2), false) \
  E(4, l[2]==l[4], S(0,'=') L(1,3) S(2,'&') L(5,0) L(6,1), Truth_Comparison(t1,t2), false) \
  E(5, l[2]==l[4], S(0,'=') S(1,'&') L(2,3) L(3,0) L(4,1), Truth_Comparison(t2,t1), false) \
  E(6, l[2]==l[4], S(0,':') S(1,'|') L(2,2) S(3,'&') L(4,3) L(7,0) L(8,1), Truth_Intersection(t1,t2), false) \
  E(7, l[2]==l[4], S(0,':') S(1,'|') L(2,4) L(3,3) S(4,'&') L(9,0) L(10,1), Truth_Intersection(t2,t1), false) \
  E(8, l[2]==l[4], S(0,':') S(1,'&') L(2,2) S(3,'&') L(4,3) L(7,0) L(8,1), Truth_Union(t1,t2), false) \
  E(9, l[2]==l[4], S(0,':') S(1,'&') L(2,4) L(3,3) S(4,'&') L(9,0) L(10,1), Truth_Union(t2,t1), false) \
  E(10, l[2]==l[4], S(0,':') S(1,'~') L(2,2) S(3,'&') L(4,3) L(7,0) L(8,1), Truth_Difference(t1,t2), false) \
  E(11, l[2]==l[4], S(0,':') S(1,'~') L(2,4) L(3,3) S(4,'&') L(9,0) L(10,1), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[3] && l[2]==l[4], S(0,':') L(1,1) L(2,4), Truth_DecomposeNPP(t2,t1), false) \
  E(13, l[1]==l[3] && l[2]==l[4], S(0,':') L(1,0) L(2,4), Truth_DecomposeNPP(t2,t1), false) \
  E(14, l[2]==l[4], S(0,'?') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'&') L(6,2) L(11,0) L(12,1), Truth_Induction(t1,t2), true) \
  E(15, l[2]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'&') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Induction(t2,t1), true) \
  E(16, l[2]==l[4], S(0,'^') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'&') L(6,2) L(11,0) L(12,1), Truth_Comparison(t1,t2), true) \
  E(17, l[2]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'&') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Comparison(t2,t1), true) \
  E(18, l[2]==l[4], S(0,';') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'&') L(6,2) L(11,0) L(12,1), Truth_Intersection(t1,t2), true) \
  E(19, l[2]==l[4], S(0,';') S(1,':') S(2,':') S(3,'&') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 27
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,':') S(1,'~') L(2,4) L(3,2) L(4,3)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,':') S(1,'~') L(2,1) L(3,2) L(4,3), Truth_Deduction(t2,t1), false) \
  E(1, l[1]==l[4], S(0,':') S(1,'~') L(2,0) L(3,2) L(4,3), Truth_Abduction(t1,t2), false) \
  E(2, l[1]==l[4], S(0,':') L(1,0) S(2,'~') L(5,2) L(6,3), Truth_Abduction(t2,t1), false) \
  E(3, l[0]==l[4], S(0,':') L(1,1) S(2,'~') L(5,2) L(6,3), Truth_Exemplification(t2,t1), false) \
  E(4, l[1]==l[4], S(0,'=') S(1,'~') L(2,0) L(3,2) L(4,3), Truth_Comparison(t1,t2), false) \
  E(5, l[1]==l[4], S(0,'=') L(1,0) S(2,'~') L(5,2) L(6,3), Truth_Comparison(t2,t1), false) \
  E(6, l[1]==l[4], S(0,':') S(1,'|') L(2,1) L(3,0) S(4,'~') L(9,2) L(10,3), Truth_Intersection(t1,t2), false) \
  E(7, l[1]==l[4], S(0,':') S(1,'|') L(2,4) S(3,'~') L(4,0) L(7,2) L(8,3), Truth_Intersection(t2,t1), false) \
  E(8, l[1]==l[4], S(0,':') S(1,'&') L(2,1) L(3,0) S(4,'~') L(9,2) L(10,3), Truth_Union(t1,t2), false) \
  E(9, l[1]==l[4], S(0,':') S(1,'&') L(2,4) S(3,'~') L(4,0) L(7,2) L(8,3), Truth_Union(t2,t1), false) \
  E(10, l[1]==l[4], S(0,':') S(1,'~') L(2,1) L(3,0) S(4,'~') L(9,2) L(10,3), Truth_Difference(t1,t2), false) \
  E(11, l[1]==l[4], S(0,':') S(1,'~') L(2,4) S(3,'~') L(4,0) L(7,2) L(8,3), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[2] && l[1]==l[4], S(0,':') L(1,3) L(2,1), Truth_DecomposePNP(t1,t2), false) \
  E(13, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,2) L(2,1), Truth_DecomposeNNN(t1,t2), false) \
  E(14, l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'~') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Induction(t1,t2), true) \
  E(15, l[1]==l[4], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'~') L(6,4) L(11,2) L(12,3), Truth_Induction(t2,t1), true) \
  E(16, l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'~') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Comparison(t1,t2), true) \
  E(17, l[1]==l[4], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'~') L(6,4) L(11,2) L(12,3), Truth_Comparison(t2,t1), true) \
  E(18, l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'~') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Intersection(t1,t2), true) \
  E(19, l[1]==l[4], S(0,';') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'~') L(6,4) L(11,2) L(12,3), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 28
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') S(1,'~') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,':') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[2]==l[3], S(0,':') S(1,'~') L(2,4) L(3,0) L(4,1), Truth_Deduction(t1,t2), false) \
  E(1, l[2]==l[4], S(0,':') L(1,3) S(2,'~') L(5,0) L(6,1), Truth_Abduction(t1,t2), false) \
  E(2, l[2]==l[4], S(0,':') S(1,'~') L(2,3) L(3,0) L(4,1), Truth_Abduction(t2,t1), false) \
  E(3, l[2]==l[3], S(0,':') L(1,4) S(2,'~') L(5,0) L(6,1), Truth_Exemplification(t1,t2), false) \
  E(4, l[2]==l[4], S(0,'=') L(1,3) S(2,'~') L(5,0) L(6,1), Truth_Comparison(t1,t2), false) \
  E(5, l[2]==l[4], S(0,'=') S(1,'~') L(2,3) L(3,0) L(4,1), Truth_Comparison(t2,t1), false) \
  E(6, l[2]==l[4], S(0,':') S(1,'|') L(2,2) S(3,'~') L(4,3) L(7,0) L(8,1), Truth_Intersection(t1,t2), false) \
  E(7, l[2]==l[4], S(0,':') S(1,'|') L(2,4) L(3,3) S(4,'~') L(9,0) L(10,1), Truth_Intersection(t2,t1), false) \
  E(8, l[2]==l[4], S(0,':') S(1,'&') L(2,2) S(3,'~') L(4,3) L(7,0) L(8,1), Truth_Union(t1,t2), false) \
  E(9, l[2]==l[4], S(0,':') S(1,'&') L(2,4) L(3,3) S(4,'~') L(9,0) L(10,1), Truth_Union(t2,t1), false) \
  E(10, l[2]==l[4], S(0,':') S(1,'~') L(2,2) S(3,'~') L(4,3) L(7,0) L(8,1), Truth_Difference(t1,t2), false) \
  E(11, l[2]==l[4], S(0,':') S(1,'~') L(2,4) L(3,3) S(4,'~') L(9,0) L(10,1), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[3] && l[2]==l[4], S(0,':') L(1,1) L(2,4), Truth_DecomposePNP(t2,t1), false) \
  E(13, l[1]==l[3] && l[2]==l[4], S(0,':') L(1,0) L(2,4), Truth_DecomposeNNN(t2,t1), false) \
  E(14, l[2]==l[4], S(0,'?') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'~') L(6,2) L(11,0) L(12,1), Truth_Induction(t1,t2), true) \
  E(15, l[2]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'~') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Induction(t2,t1), true) \
  E(16, l[2]==l[4], S(0,'^') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'~') L(6,2) L(11,0) L(12,1), Truth_Comparison(t1,t2), true) \
  E(17, l[2]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'~') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Comparison(t2,t1), true) \
  E(18, l[2]==l[4], S(0,';') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'~') L(6,2) L(11,0) L(12,1), Truth_Intersection(t1,t2), true) \
  E(19, l[2]==l[4], S(0,';') S(1,':') S(2,':') S(3,'~') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 29
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,':') L(1,2) S(2,'&') L(5,3) L(6,4)
#define EXPECTS \
  E(0, l[1]==l[2], S(0,':') L(1,0) S(2,'&') L(5,3) L(6,4), Truth_Deduction(t1,t2), false) \
  E(1, l[0]==l[2], S(0,':') S(1,'&') L(2,1) L(3,3) L(4,4), Truth_Induction(t1,t2), false) \
  E(2, l[0]==l[2], S(0,':') L(1,1) S(2,'&') L(5,3) L(6,4), Truth_Induction(t2,t1), false) \
  E(3, l[1]==l[2], S(0,':') S(1,'&') L(2,0) L(3,3) L(4,4), Truth_Exemplification(t1,t2), false) \
  E(4, l[0]==l[2], S(0,'=') S(1,'&') L(2,1) L(3,3) L(4,4), Truth_Comparison(t1,t2), false) \
  E(5, l[0]==l[2], S(0,'=') L(1,1) S(2,'&') L(5,3) L(6,4), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[2], S(0,':') L(1,0) S(2,'&') L(5,1) S(6,'&') L(13,3) L(14,4), Truth_Intersection(t1,t2), false) \
  E(7, l[0]==l[2], S(0,':') L(1,2) S(2,'&') S(5,'&') L(6,1) L(11,3) L(12,4), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[2], S(0,':') L(1,0) S(2,'|') L(5,1) S(6,'&') L(13,3) L(14,4), Truth_Union(t1,t2), false) \
  E(9, l[0]==l[2], S(0,':') L(1,2) S(2,'|') S(5,'&') L(6,1) L(11,3) L(12,4), Truth_Union(t2,t1), false) \
  E(10, l[0]==l[2], S(0,':') L(1,0) S(2,'-') L(5,1) S(6,'&') L(13,3) L(14,4), Truth_Difference(t1,t2), false) \
  E(11, l[0]==l[2], S(0,':') L(1,2) S(2,'-') S(5,'&') L(6,1) L(11,3) L(12,4), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[2] && l[1]==l[3], S(0,':') L(1,0) L(2,4), Truth_DecomposePNN(t1,t2), false) \
  E(13, l[0]==l[2] && l[1]==l[4], S(0,':') L(1,0) L(2,3), Truth_DecomposePNN(t1,t2), false) \
  E(14, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,0) S(4,'&') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Induction(t1,t2), true) \
  E(15, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'&') L(13,3) L(14,4), Truth_Induction(t2,t1), true) \
  E(16, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,0) S(4,'&') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Comparison(t1,t2), true) \
  E(17, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'&') L(13,3) L(14,4), Truth_Comparison(t2,t1), true) \
  E(18, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,0) S(4,'&') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Intersection(t1,t2), true) \
  E(19, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'&') L(13,3) L(14,4), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 30
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) S(2,'&') L(5,1) L(6,2)
#define TERM2 S(0,':') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,':') L(1,3) S(2,'&') L(5,1) L(6,2), Truth_Deduction(t2,t1), false) \
  E(1, l[0]==l[3], S(0,':') L(1,4) S(2,'&') L(5,1) L(6,2), Truth_Induction(t1,t2), false) \
  E(2, l[0]==l[3], S(0,':') S(1,'&') L(2,4) L(3,1) L(4,2), Truth_Induction(t2,t1), false) \
  E(3, l[0]==l[4], S(0,':') S(1,'&') L(2,3) L(3,1) L(4,2), Truth_Exemplification(t2,t1), false) \
  E(4, l[0]==l[3], S(0,'=') L(1,4) S(2,'&') L(5,1) L(6,2), Truth_Comparison(t1,t2), false) \
  E(5, l[0]==l[3], S(0,'=') S(1,'&') L(2,4) L(3,1) L(4,2), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[3], S(0,':') L(1,0) S(2,'&') S(5,'&') L(6,4) L(11,1) L(12,2), Truth_Intersection(t1,t2), false) \
  E(7, l[0]==l[3], S(0,':') L(1,3) S(2,'&') L(5,4) S(6,'&') L(13,1) L(14,2), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[3], S(0,':') L(1,0) S(2,'|') S(5,'&') L(6,4) L(11,1) L(12,2), Truth_Union(t1,t2), false) \
  E(9, l[0]==l[3], S(0,':') L(1,3) S(2,'|') L(5,4) S(6,'&') L(13,1) L(14,2), Truth_Union(t2,t1), false) \
  E(10, l[0]==l[3], S(0,':') L(1,0) S(2,'-') S(5,'&') L(6,4) L(11,1) L(12,2), Truth_Difference(t1,t2), false) \
  E(11, l[0]==l[3], S(0,':') L(1,3) S(2,'-') L(5,4) S(6,'&') L(13,1) L(14,2), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,3) L(2,2), Truth_DecomposePNN(t2,t1), false) \
  E(13, l[0]==l[3] && l[2]==l[4], S(0,':') L(1,3) L(2,1), Truth_DecomposePNN(t2,t1), false) \
  E(14, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'&') L(13,1) L(14,2), Truth_Induction(t1,t2), true) \
  E(15, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,3) S(4,'&') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Induction(t2,t1), true) \
  E(16, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'&') L(13,1) L(14,2), Truth_Comparison(t1,t2), true) \
  E(17, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,3) S(4,'&') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Comparison(t2,t1), true) \
  E(18, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'&') L(13,1) L(14,2), Truth_Intersection(t1,t2), true) \
  E(19, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,3) S(4,'&') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 31
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,':') L(1,2) S(2,'|') L(5,3) L(6,4)
#define EXPECTS \
  E(0, l[1]==l[2], S(0,':') L(1,0) S(2,'|') L(5,3) L(6,4), Truth_Deduction(t1,t2), false) \
  E(1, l[0]==l[2], S(0,':') S(1,'|') L(2,1) L(3,3) L(4,4), Truth_Induction(t1,t2), false) \
  E(2, l[0]==l[2], S(0,':') L(1,1) S(2,'|') L(5,3) L(6,4), Truth_Induction(t2,t1), false) \
  E(3, l[1]==l[2], S(0,':') S(1,'|') L(2,0) L(3,3) L(4,4), Truth_Exemplification(t1,t2), false) \
  E(4, l[0]==l[2], S(0,'=') S(1,'|') L(2,1) L(3,3) L(4,4), Truth_Comparison(t1,t2), false) \
  E(5, l[0]==l[2], S(0,'=') L(1,1) S(2,'|') L(5,3) L(6,4), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[2], S(0,':') L(1,0) S(2,'&') L(5,1) S(6,'|') L(13,3) L(14,4), Truth_Intersection(t1,t2), false) \
  E(7, l[0]==l[2], S(0,':') L(1,2) S(2,'&') S(5,'|') L(6,1) L(11,3) L(12,4), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[2], S(0,':') L(1,0) S(2,'|') L(5,1) S(6,'|') L(13,3) L(14,4), Truth_Union(t1,t2), false) \
  E(9, l[0]==l[2], S(0,':') L(1,2) S(2,'|') S(5,'|') L(6,1) L(11,3) L(12,4), Truth_Union(t2,t1), false) \
  E(10, l[0]==l[2], S(0,':') L(1,0) S(2,'-') L(5,1) S(6,'|') L(13,3) L(14,4), Truth_Difference(t1,t2), false) \
  E(11, l[0]==l[2], S(0,':') L(1,2) S(2,'-') S(5,'|') L(6,1) L(11,3) L(12,4), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[2] && l[1]==l[3], S(0,':') L(1,0) L(2,4), Truth_DecomposeNPP(t1,t2), false) \
  E(13, l[0]==l[2] && l[1]==l[4], S(0,':') L(1,0) L(2,3), Truth_DecomposeNPP(t1,t2), false) \
  E(14, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,0) S(4,'|') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Induction(t1,t2), true) \
  E(15, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'|') L(13,3) L(14,4), Truth_Induction(t2,t1), true) \
  E(16, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,0) S(4,'|') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Comparison(t1,t2), true) \
  E(17, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'|') L(13,3) L(14,4), Truth_Comparison(t2,t1), true) \
  E(18, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,0) S(4,'|') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Intersection(t1,t2), true) \
  E(19, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'|') L(13,3) L(14,4), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 32
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) S(2,'|') L(5,1) L(6,2)
#define TERM2 S(0,':') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,':') L(1,3) S(2,'|') L(5,1) L(6,2), Truth_Deduction(t2,t1), false) \
  E(1, l[0]==l[3], S(0,':') L(1,4) S(2,'|') L(5,1) L(6,2), Truth_Induction(t1,t2), false) \
  E(2, l[0]==l[3], S(0,':') S(1,'|') L(2,4) L(3,1) L(4,2), Truth_Induction(t2,t1), false) \
  E(3, l[0]==l[4], S(0,':') S(1,'|') L(2,3) L(3,1) L(4,2), Truth_Exemplification(t2,t1), false) \
  E(4, l[0]==l[3], S(0,'=') L(1,4) S(2,'|') L(5,1) L(6,2), Truth_Comparison(t1,t2), false) \
  E(5, l[0]==l[3], S(0,'=') S(1,'|') L(2,4) L(3,1) L(4,2), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[3], S(0,':') L(1,0) S(2,'&') S(5,'|') L(6,4) L(11,1) L(12,2), Truth_Intersection(t1,t2), false) \
  E(7, l[0]==l[3], S(0,':') L(1,3) S(2,'&') L(5,4) S(6,'|') L(13,1) L(14,2), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[3], S(0,':') L(1,0) S(2,'|') S(5,'|') L(6,4) L(11,1) L(12,2), Truth_Union(t1,t2), false) \
  E(9, l[0]==l[3], S(0,':') L(1,3) S(2,'|') L(5,4) S(6,'|') L(13,1) L(14,2), Truth_Union(t2,t1), false) \
  E(10, l[0]==l[3], S(0,':') L(1,0) S(2,'-') S(5,'|') L(6,4) L(11,1) L(12,2), Truth_Difference(t1,t2), false) \
  E(11, l[0]==l[3], S(0,':') L(1,3) S(2,'-') L(5,4) S(6,'|') L(13,1) L(14,2), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,3) L(2,2), Truth_DecomposeNPP(t2,t1), false) \
  E(13, l[0]==l[3] && l[2]==l[4], S(0,':') L(1,3) L(2,1), Truth_DecomposeNPP(t2,t1), false) \
  E(14, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'|') L(13,1) L(14,2), Truth_Induction(t1,t2), true) \
  E(15, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,3) S(4,'|') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Induction(t2,t1), true) \
  E(16, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'|') L(13,1) L(14,2), Truth_Comparison(t1,t2), true) \
  E(17, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,3) S(4,'|') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Comparison(t2,t1), true) \
  E(18, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'|') L(13,1) L(14,2), Truth_Intersection(t1,t2), true) \
  E(19, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,3) S(4,'|') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 33
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,':') L(1,2) S(2,'-') L(5,3) L(6,4)
#define EXPECTS \
  E(0, l[1]==l[2], S(0,':') L(1,0) S(2,'-') L(5,3) L(6,4), Truth_Deduction(t1,t2), false) \
  E(1, l[0]==l[2], S(0,':') S(1,'-') L(2,1) L(3,3) L(4,4), Truth_Induction(t1,t2), false) \
  E(2, l[0]==l[2], S(0,':') L(1,1) S(2,'-') L(5,3) L(6,4), Truth_Induction(t2,t1), false) \
  E(3, l[1]==l[2], S(0,':') S(1,'-') L(2,0) L(3,3) L(4,4), Truth_Exemplification(t1,t2), false) \
  E(4, l[0]==l[2], S(0,'=') S(1,'-') L(2,1) L(3,3) L(4,4), Truth_Comparison(t1,t2), false) \
  E(5, l[0]==l[2], S(0,'=') L(1,1) S(2,'-') L(5,3) L(6,4), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[2], S(0,':') L(1,0) S(2,'&') L(5,1) S(6,'-') L(13,3) L(14,4), Truth_Intersection(t1,t2), false) \
  E(7, l[0]==l[2], S(0,':') L(1,2) S(2,'&') S(5,'-') L(6,1) L(11,3) L(12,4), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[2], S(0,':') L(1,0) S(2,'|') L(5,1) S(6,'-') L(13,3) L(14,4), Truth_Union(t1,t2), false) \
  E(9, l[0]==l[2], S(0,':') L(1,2) S(2,'|') S(5,'-') L(6,1) L(11,3) L(12,4), Truth_Union(t2,t1), false) \
  E(10, l[0]==l[2], S(0,':') L(1,0) S(2,'-') L(5,1) S(6,'-') L(13,3) L(14,4), Truth_Difference(t1,t2), false) \
  E(11, l[0]==l[2], S(0,':') L(1,2) S(2,'-') S(5,'-') L(6,1) L(11,3) L(12,4), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[2] && l[1]==l[3], S(0,':') L(1,0) L(2,4), Truth_DecomposePNP(t1,t2), false) \
  E(13, l[0]==l[2] && l[1]==l[4], S(0,':') L(1,0) L(2,3), Truth_DecomposeNNN(t1,t2), false) \
  E(14, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,0) S(4,'-') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Induction(t1,t2), true) \
  E(15, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'-') L(13,3) L(14,4), Truth_Induction(t2,t1), true) \
  E(16, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,0) S(4,'-') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Comparison(t1,t2), true) \
  E(17, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'-') L(13,3) L(14,4), Truth_Comparison(t2,t1), true) \
  E(18, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,0) S(4,'-') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Intersection(t1,t2), true) \
  E(19, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'-') L(13,3) L(14,4), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 34
#define NL 5
#define NE 20
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) S(2,'-') L(5,1) L(6,2)
#define TERM2 S(0,':') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,':') L(1,3) S(2,'-') L(5,1) L(6,2), Truth_Deduction(t2,t1), false) \
  E(1, l[0]==l[3], S(0,':') L(1,4) S(2,'-') L(5,1) L(6,2), Truth_Induction(t1,t2), false) \
  E(2, l[0]==l[3], S(0,':') S(1,'-') L(2,4) L(3,1) L(4,2), Truth_Induction(t2,t1), false) \
  E(3, l[0]==l[4], S(0,':') S(1,'-') L(2,3) L(3,1) L(4,2), Truth_Exemplification(t2,t1), false) \
  E(4, l[0]==l[3], S(0,'=') L(1,4) S(2,'-') L(5,1) L(6,2), Truth_Comparison(t1,t2), false) \
  E(5, l[0]==l[3], S(0,'=') S(1,'-') L(2,4) L(3,1) L(4,2), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[3], S(0,':') L(1,0) S(2,'&') S(5,'-') L(6,4) L(11,1) L(12,2), Truth_Intersection(t1,t2), false) \
  E(7, l[0]==l[3], S(0,':') L(1,3) S(2,'&') L(5,4) S(6,'-') L(13,1) L(14,2), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[3], S(0,':') L(1,0) S(2,'|') S(5,'-') L(6,4) L(11,1) L(12,2), Truth_Union(t1,t2), false) \
  E(9, l[0]==l[3], S(0,':') L(1,3) S(2,'|') L(5,4) S(6,'-') L(13,1) L(14,2), Truth_Union(t2,t1), false) \
  E(10, l[0]==l[3], S(0,':') L(1,0) S(2,'-') S(5,'-') L(6,4) L(11,1) L(12,2), Truth_Difference(t1,t2), false) \
  E(11, l[0]==l[3], S(0,':') L(1,3) S(2,'-') L(5,4) S(6,'-') L(13,1) L(14,2), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,3) L(2,2), Truth_DecomposePNP(t2,t1), false) \
  E(13, l[0]==l[3] && l[2]==l[4], S(0,':') L(1,3) L(2,1), Truth_DecomposeNNN(t2,t1), false) \
  E(14, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'-') L(13,1) L(14,2), Truth_Induction(t1,t2), true) \
  E(15, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,3) S(4,'-') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Induction(t2,t1), true) \
  E(16, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'-') L(13,1) L(14,2), Truth_Comparison(t1,t2), true) \
  E(17, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,3) S(4,'-') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Comparison(t2,t1), true) \
  E(18, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'-') L(13,1) L(14,2), Truth_Intersection(t1,t2), true) \
  E(19, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,3) S(4,'-') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 35
#define NL 4
#define NE 6
#define DOUBLE false
#define TERM1 S(0,':') S(1,'*') S(2,'*') L(3,0) L(4,1) L(5,2) L(6,3)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) L(2,2), Truth_StructuralDeduction(t1,t2), false) \
  E(1, true, S(0,':') L(1,1) L(2,3), Truth_StructuralDeduction(t1,t2), false) \
  E(2, true, S(0,':') L(1,0) S(2,'/') S(5,'*') L(6,1) L(11,2) L(12,3), Truth_StructuralIntersection(t1,t2), false) \
  E(3, true, S(0,':') L(1,1) S(2,'%') S(5,'*') L(6,0) L(11,2) L(12,3), Truth_StructuralIntersection(t1,t2), false) \
  E(4, true, S(0,':') S(1,'\\') L(2,2) S(3,'*') L(4,3) L(7,0) L(8,1), Truth_StructuralIntersection(t1,t2), false) \
  E(5, true, S(0,':') S(1,'#') L(2,3) S(3,'*') L(4,2) L(7,0) L(8,1), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 36
#define NL 3
#define NE 2
#define DOUBLE false
#define TERM1 S(0,':') S(1,'*') L(2,2) L(3,0) L(4,1)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) S(2,'/') L(5,2) L(6,1), Truth_StructuralIntersection(t1,t2), false) \
  E(1, true, S(0,':') L(1,1) S(2,'%') L(5,2) L(6,0), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 37
#define NL 3
#define NE 1
#define DOUBLE false
#define TERM1 S(0,':') L(1,0) S(2,'/') L(5,1) L(6,2)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') S(1,'*') L(2,1) L(3,0) L(4,2), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 38
#define NL 3
#define NE 1
#define DOUBLE false
#define TERM1 S(0,':') L(1,0) S(2,'%') L(5,1) L(6,2)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') S(1,'*') L(2,1) L(3,2) L(4,0), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 39
#define NL 3
#define NE 2
#define DOUBLE false
#define TERM1 S(0,':') L(1,0) S(2,'*') L(5,1) L(6,2)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') S(1,'\\') L(2,1) L(3,0) L(4,2), Truth_StructuralIntersection(t1,t2), false) \
  E(1, true, S(0,':') S(1,'#') L(2,2) L(3,0) L(4,1), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 40
#define NL 3
#define NE 1
#define DOUBLE false
#define TERM1 S(0,':') S(1,'\\') L(2,2) L(3,0) L(4,1)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) S(2,'*') L(5,2) L(6,1), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 41
#define NL 3
#define NE 1
#define DOUBLE false
#define TERM1 S(0,':') S(1,'#') L(2,2) L(3,0) L(4,1)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) S(2,'*') L(5,1) L(6,2), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 42
#define NL 4
#define NE 4
#define DOUBLE true
#define TERM1 S(0,',') S(1,'"') S(2,'\'') L(3,0) S(4,'@') L(5,1) S(6,'@')
#define TERM2 S(0,',') S(1,'"') S(2,'\'') L(3,2) S(4,'@') L(5,3) S(6,'@')
#define EXPECTS \
  E(0, l[1]==l[3], S(0,':') S(1,'*') S(2,'+') S(3,'"') S(4,'"') L(5,1) S(6,'@') L(7,0) S(8,'@') L(9,2) S(10,'@'), Truth_FrequencyGreater(t1,t2), false) \
  E(1, l[1]==l[3], S(0,':') S(1,'*') S(2,'+') S(3,'"') S(4,'"') L(5,3) S(6,'@') L(7,2) S(8,'@') L(9,0) S(10,'@'), Truth_FrequencyGreater(t2,t1), false) \
  E(2, l[1]==l[3], S(0,':') S(1,'*') S(2,'=') S(3,'"') S(4,'"') L(5,1) S(6,'@') L(7,0) S(8,'@') L(9,2) S(10,'@'), Truth_FrequencyEqual(t1,t2), false) \
  E(3, l[1]==l[3], S(0,':') S(1,'*') S(2,'=') S(3,'"') S(4,'"') L(5,3) S(6,'@') L(7,2) S(8,'@') L(9,0) S(10,'@'), Truth_FrequencyEqual(t2,t1), false) \

#endif
#if CASE == 43
#define NL 6
#define NE 46
#define DOUBLE true
#define TERM1 S(0,':') S(1,'*') S(2,'+') L(3,0) L(4,1) L(5,2) S(6,'@')
#define TERM2 S(0,':') S(1,'*') S(2,'+') L(3,3) L(4,4) L(5,5) S(6,'@')
#define EXPECTS \
  E(0, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'+') S(2,'+') L(3,5) S(4,'@') L(5,2) S(6,'@'), Truth_Induction(t1,t2), false) \
  E(1, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'+') S(2,'+') L(3,2) S(4,'@') L(5,5) S(6,'@'), Truth_Induction(t2,t1), false) \
  E(2, l[2]==l[5], S(0,':') S(1,'*') S(2,'*') L(3,3) L(4,4) L(5,0) L(6,1), Truth_Abduction(t1,t2), false) \
  E(3, l[2]==l[5], S(0,':') S(1,'*') S(2,'*') L(3,0) L(4,1) L(5,3) L(6,4), Truth_Abduction(t2,t1), false) \
  E(4, l[2]==l[5], S(0,'=') S(1,'*') S(2,'*') L(3,3) L(4,4) L(5,0) L(6,1), Truth_Comparison(t1,t2), false) \
  E(5, l[2]==l[5], S(0,'=') S(1,'*') S(2,'*') L(3,0) L(4,1) L(5,3) L(6,4), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[3] && l[1]==l[4], S(0,'=') S(1,'+') S(2,'+') L(3,5) S(4,'@') L(5,2) S(6,'@'), Truth_Comparison(t1,t2), false) \
  E(7, l[0]==l[3] && l[1]==l[4], S(0,'=') S(1,'+') S(2,'+') L(3,2) S(4,'@') L(5,5) S(6,'@'), Truth_Comparison(t2,t1), false) \
  E(8, l[2]==l[5], S(0,':') S(1,'|') S(2,'+') S(3,'*') S(4,'*') L(5,2) S(6,'@') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Intersection(t1,t2), false) \
  E(9, l[2]==l[5], S(0,':') S(1,'|') S(2,'+') S(3,'*') S(4,'*') L(5,5) S(6,'@') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Intersection(t2,t1), false) \
  E(10, l[2]==l[5], S(0,':') S(1,'&') S(2,'+') S(3,'*') S(4,'*') L(5,2) S(6,'@') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Union(t1,t2), false) \
  E(11, l[2]==l[5], S(0,':') S(1,'&') S(2,'+') S(3,'*') S(4,'*') L(5,5) S(6,'@') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Union(t2,t1), false) \
  E(12, l[2]==l[5], S(0,':') S(1,'~') S(2,'+') S(3,'*') S(4,'*') L(5,2) S(6,'@') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Difference(t1,t2), false) \
  E(13, l[2]==l[5], S(0,':') S(1,'~') S(2,'+') S(3,'*') S(4,'*') L(5,5) S(6,'@') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Difference(t2,t1), false) \
  E(14, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'&') L(3,0) L(4,1) S(5,'+') S(6,'+') L(11,2) S(12,'@') L(13,5) S(14,'@'), Truth_Intersection(t1,t2), false) \
  E(15, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'&') L(3,3) L(4,4) S(5,'+') S(6,'+') L(11,5) S(12,'@') L(13,2) S(14,'@'), Truth_Intersection(t2,t1), false) \
  E(16, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'|') L(3,0) L(4,1) S(5,'+') S(6,'+') L(11,2) S(12,'@') L(13,5) S(14,'@'), Truth_Union(t1,t2), false) \
  E(17, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'|') L(3,3) L(4,4) S(5,'+') S(6,'+') L(11,5) S(12,'@') L(13,2) S(14,'@'), Truth_Union(t2,t1), false) \
  E(18, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'-') L(3,0) L(4,1) S(5,'+') S(6,'+') L(11,2) S(12,'@') L(13,5) S(14,'@'), Truth_Difference(t1,t2), false) \
  E(19, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'-') L(3,3) L(4,4) S(5,'+') S(6,'+') L(11,5) S(12,'@') L(13,2) S(14,'@'), Truth_Difference(t2,t1), false) \
  E(20, l[1]==l[3] && l[2]==l[5], S(0,':') S(1,'*') S(2,'+') L(3,0) L(4,4) L(5,2) S(6,'@'), Truth_Deduction(t1,t2), false) \
  E(21, l[0]==l[4] && l[2]==l[5], S(0,':') S(1,'*') S(2,'+') L(3,3) L(4,1) L(5,5) S(6,'@'), Truth_Deduction(t2,t1), false) \
  E(22, l[1]==l[4] && l[2]==l[5], S(0,':') L(1,3) L(2,0), Truth_Abduction(t1,t2), false) \
  E(23, l[1]==l[4] && l[2]==l[5], S(0,':') L(1,0) L(2,3), Truth_Abduction(t2,t1), false) \
  E(24, l[1]==l[4] && l[2]==l[5], S(0,'=') L(1,0) L(2,3), Truth_Comparison(t1,t2), false) \
  E(25, l[1]==l[4] && l[2]==l[5], S(0,'=') L(1,3) L(2,0), Truth_Comparison(t2,t1), false) \
  E(26, l[0]==l[3] && l[2]==l[5], S(0,':') L(1,4) L(2,1), Truth_Abduction(t1,t2), false) \
  E(27, l[0]==l[3] && l[2]==l[5], S(0,':') L(1,1) L(2,4), Truth_Abduction(t2,t1), false) \
  E(28, l[0]==l[3] && l[2]==l[5], S(0,'=') L(1,1) L(2,4), Truth_Comparison(t1,t2), false) \
  E(29, l[0]==l[3] && l[2]==l[5], S(0,'=') L(1,4) L(2,1), Truth_Comparison(t2,t1), false) \
  E(30, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Induction(t1,t2), true) \
  E(31, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Induction(t2,t1), true) \
  E(32, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Comparison(t1,t2), true) \
  E(33, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Comparison(t2,t1), true) \
  E(34, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Intersection(t1,t2), true) \
  E(35, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Intersection(t2,t1), true) \
  E(36, l[2]==l[5], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Induction(t1,t2), true) \
  E(37, l[2]==l[5], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Induction(t2,t1), true) \
  E(38, l[2]==l[5], S(0,'^') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Comparison(t1,t2), true) \
  E(39, l[2]==l[5], S(0,'^') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Comparison(t2,t1), true) \
  E(40, l[2]==l[5], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Intersection(t1,t2), true) \
  E(41, l[2]==l[5], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Intersection(t2,t1), true) \
  E(42, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,1) L(8,0) L(9,5) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Induction(t1,t2), true) \
  E(43, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,4) L(8,3) L(9,2) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Induction(t2,t1), true) \
  E(44, l[1]==l[3], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,0) L(8,1) L(9,2) S(10,'@') L(11,1) L(12,4) L(13,5) S(14,'@'), Truth_Intersection(t1,t2), false) \
  E(45, l[0]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'+') S(5,'*') S(6,'+') L(7,3) L(8,4) L(9,5) S(10,'@') L(11,4) L(12,1) L(13,2) S(14,'@'), Truth_Intersection(t2,t1), false) \

#endif
#if CASE == 44
#define NL 6
#define NE 46
#define DOUBLE true
#define TERM1 S(0,':') S(1,'*') S(2,'=') L(3,0) L(4,1) L(5,2) S(6,'@')
#define TERM2 S(0,':') S(1,'*') S(2,'=') L(3,3) L(4,4) L(5,5) S(6,'@')
#define EXPECTS \
  E(0, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'=') S(2,'=') L(3,5) S(4,'@') L(5,2) S(6,'@'), Truth_Induction(t1,t2), false) \
  E(1, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'=') S(2,'=') L(3,2) S(4,'@') L(5,5) S(6,'@'), Truth_Induction(t2,t1), false) \
  E(2, l[2]==l[5], S(0,':') S(1,'*') S(2,'*') L(3,3) L(4,4) L(5,0) L(6,1), Truth_Abduction(t1,t2), false) \
  E(3, l[2]==l[5], S(0,':') S(1,'*') S(2,'*') L(3,0) L(4,1) L(5,3) L(6,4), Truth_Abduction(t2,t1), false) \
  E(4, l[2]==l[5], S(0,'=') S(1,'*') S(2,'*') L(3,3) L(4,4) L(5,0) L(6,1), Truth_Comparison(t1,t2), false) \
  E(5, l[2]==l[5], S(0,'=') S(1,'*') S(2,'*') L(3,0) L(4,1) L(5,3) L(6,4), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[3] && l[1]==l[4], S(0,'=') S(1,'=') S(2,'=') L(3,5) S(4,'@') L(5,2) S(6,'@'), Truth_Comparison(t1,t2), false) \
  E(7, l[0]==l[3] && l[1]==l[4], S(0,'=') S(1,'=') S(2,'=') L(3,2) S(4,'@') L(5,5) S(6,'@'), Truth_Comparison(t2,t1), false) \
  E(8, l[2]==l[5], S(0,':') S(1,'|') S(2,'=') S(3,'*') S(4,'*') L(5,2) S(6,'@') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Intersection(t1,t2), false) \
  E(9, l[2]==l[5], S(0,':') S(1,'|') S(2,'=') S(3,'*') S(4,'*') L(5,5) S(6,'@') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Intersection(t2,t1), false) \
  E(10, l[2]==l[5], S(0,':') S(1,'&') S(2,'=') S(3,'*') S(4,'*') L(5,2) S(6,'@') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Union(t1,t2), false) \
  E(11, l[2]==l[5], S(0,':') S(1,'&') S(2,'=') S(3,'*') S(4,'*') L(5,5) S(6,'@') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Union(t2,t1), false) \
  E(12, l[2]==l[5], S(0,':') S(1,'~') S(2,'=') S(3,'*') S(4,'*') L(5,2) S(6,'@') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Difference(t1,t2), false) \
  E(13, l[2]==l[5], S(0,':') S(1,'~') S(2,'=') S(3,'*') S(4,'*') L(5,5) S(6,'@') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Difference(t2,t1), false) \
  E(14, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'&') L(3,0) L(4,1) S(5,'=') S(6,'=') L(11,2) S(12,'@') L(13,5) S(14,'@'), Truth_Intersection(t1,t2), false) \
  E(15, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'&') L(3,3) L(4,4) S(5,'=') S(6,'=') L(11,5) S(12,'@') L(13,2) S(14,'@'), Truth_Intersection(t2,t1), false) \
  E(16, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'|') L(3,0) L(4,1) S(5,'=') S(6,'=') L(11,2) S(12,'@') L(13,5) S(14,'@'), Truth_Union(t1,t2), false) \
  E(17, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'|') L(3,3) L(4,4) S(5,'=') S(6,'=') L(11,5) S(12,'@') L(13,2) S(14,'@'), Truth_Union(t2,t1), false) \
  E(18, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'-') L(3,0) L(4,1) S(5,'=') S(6,'=') L(11,2) S(12,'@') L(13,5) S(14,'@'), Truth_Difference(t1,t2), false) \
  E(19, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'-') L(3,3) L(4,4) S(5,'=') S(6,'=') L(11,5) S(12,'@') L(13,2) S(14,'@'), Truth_Difference(t2,t1), false) \
  E(20, l[1]==l[3] && l[2]==l[5], S(0,':') S(1,'*') S(2,'=') L(3,0) L(4,4) L(5,2) S(6,'@'), Truth_Deduction(t1,t2), false) \
  E(21, l[0]==l[4] && l[2]==l[5], S(0,':') S(1,'*') S(2,'=') L(3,3) L(4,1) L(5,5) S(6,'@'), Truth_Deduction(t2,t1), false) \
  E(22, l[1]==l[4] && l[2]==l[5], S(0,':') L(1,3) L(2,0), Truth_Abduction(t1,t2), false) \
  E(23, l[1]==l[4] && l[2]==l[5], S(0,':') L(1,0) L(2,3), Truth_Abduction(t2,t1), false) \
  E(24, l[1]==l[4] && l[2]==l[5], S(0,'=') L(1,0) L(2,3), Truth_Comparison(t1,t2), false) \
  E(25, l[1]==l[4] && l[2]==l[5], S(0,'=') L(1,3) L(2,0), Truth_Comparison(t2,t1), false) \
  E(26, l[0]==l[3] && l[2]==l[5], S(0,':') L(1,4) L(2,1), Truth_Abduction(t1,t2), false) \
  E(27, l[0]==l[3] && l[2]==l[5], S(0,':') L(1,1) L(2,4), Truth_Abduction(t2,t1), false) \
  E(28, l[0]==l[3] && l[2]==l[5], S(0,'=') L(1,1) L(2,4), Truth_Comparison(t1,t2), false) \
  E(29, l[0]==l[3] && l[2]==l[5], S(0,'=') L(1,4) L(2,1), Truth_Comparison(t2,t1), false) \
  E(30, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Induction(t1,t2), true) \
  E(31, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Induction(t2,t1), true) \
  E(32, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Comparison(t1,t2), true) \
  E(33, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Comparison(t2,t1), true) \
  E(34, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Intersection(t1,t2), true) \
  E(35, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Intersection(t2,t1), true) \
  E(36, l[2]==l[5], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Induction(t1,t2), true) \
  E(37, l[2]==l[5], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Induction(t2,t1), true) \
  E(38, l[2]==l[5], S(0,'^') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Comparison(t1,t2), true) \
  E(39, l[2]==l[5], S(0,'^') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Comparison(t2,t1), true) \
  E(40, l[2]==l[5], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,3) L(8,4) L(9,2) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Intersection(t1,t2), true) \
  E(41, l[2]==l[5], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,0) L(8,1) L(9,5) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Intersection(t2,t1), true) \
  E(42, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,1) L(8,0) L(9,5) S(10,'@') L(11,0) L(12,1) L(13,2) S(14,'@'), Truth_Induction(t1,t2), true) \
  E(43, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,4) L(8,3) L(9,2) S(10,'@') L(11,3) L(12,4) L(13,5) S(14,'@'), Truth_Induction(t2,t1), true) \
  E(44, l[1]==l[3], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,0) L(8,1) L(9,2) S(10,'@') L(11,1) L(12,4) L(13,5) S(14,'@'), Truth_Intersection(t1,t2), false) \
  E(45, l[0]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') S(4,'=') S(5,'*') S(6,'=') L(7,3) L(8,4) L(9,5) S(10,'@') L(11,4) L(12,1) L(13,2) S(14,'@'), Truth_Intersection(t2,t1), false) \

#endif
#if CASE == 45
#define NL 3
#define NE 3
#define DOUBLE false
#define TERM1 S(0,':') S(1,'*') S(2,'=') L(3,0) L(4,1) L(5,2) S(6,'@')
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,':') L(1,0) S(2,'/') S(5,'=') L(6,1) L(11,2) S(12,'@'), Truth_StructuralIntersection(t1,t2), false) \
  E(1, true, S(0,':') L(1,1) S(2,'%') S(5,'=') L(6,0) L(11,2) S(12,'@'), Truth_StructuralIntersection(t1,t2), false) \
  E(2, true, S(0,':') S(1,'*') S(2,'=') L(3,1) L(4,0) L(5,2) S(6,'@'), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 46
#define NL 6
#define NE 48
#define DOUBLE true
#define TERM1 S(0,':') S(1,'*') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,':') S(1,'*') L(2,5) L(3,3) L(4,4)
#define EXPECTS \
  E(0, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,5) L(2,2), Truth_Induction(t1,t2), false) \
  E(1, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,2) L(2,5), Truth_Induction(t2,t1), false) \
  E(2, l[2]==l[5], S(0,':') S(1,'*') S(2,'*') L(3,3) L(4,4) L(5,0) L(6,1), Truth_Abduction(t1,t2), false) \
  E(3, l[2]==l[5], S(0,':') S(1,'*') S(2,'*') L(3,0) L(4,1) L(5,3) L(6,4), Truth_Abduction(t2,t1), false) \
  E(4, l[2]==l[5], S(0,'=') S(1,'*') S(2,'*') L(3,3) L(4,4) L(5,0) L(6,1), Truth_Comparison(t1,t2), false) \
  E(5, l[2]==l[5], S(0,'=') S(1,'*') S(2,'*') L(3,0) L(4,1) L(5,3) L(6,4), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[3] && l[1]==l[4], S(0,'=') L(1,5) L(2,2), Truth_Comparison(t1,t2), false) \
  E(7, l[0]==l[3] && l[1]==l[4], S(0,'=') L(1,2) L(2,5), Truth_Comparison(t2,t1), false) \
  E(8, l[2]==l[5], S(0,':') S(1,'|') L(2,2) S(3,'*') S(4,'*') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Intersection(t1,t2), false) \
  E(9, l[2]==l[5], S(0,':') S(1,'|') L(2,5) S(3,'*') S(4,'*') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Intersection(t2,t1), false) \
  E(10, l[2]==l[5], S(0,':') S(1,'&') L(2,2) S(3,'*') S(4,'*') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Union(t1,t2), false) \
  E(11, l[2]==l[5], S(0,':') S(1,'&') L(2,5) S(3,'*') S(4,'*') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Union(t2,t1), false) \
  E(12, l[2]==l[5], S(0,':') S(1,'~') L(2,2) S(3,'*') S(4,'*') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Difference(t1,t2), false) \
  E(13, l[2]==l[5], S(0,':') S(1,'~') L(2,5) S(3,'*') S(4,'*') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Difference(t2,t1), false) \
  E(14, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'&') L(3,0) L(4,1) L(5,2) L(6,5), Truth_Intersection(t1,t2), false) \
  E(15, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'&') L(3,3) L(4,4) L(5,5) L(6,2), Truth_Intersection(t2,t1), false) \
  E(16, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'|') L(3,0) L(4,1) L(5,2) L(6,5), Truth_Union(t1,t2), false) \
  E(17, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'|') L(3,3) L(4,4) L(5,5) L(6,2), Truth_Union(t2,t1), false) \
  E(18, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'-') L(3,0) L(4,1) L(5,2) L(6,5), Truth_Difference(t1,t2), false) \
  E(19, l[0]==l[3] && l[1]==l[4], S(0,':') S(1,'*') S(2,'-') L(3,3) L(4,4) L(5,5) L(6,2), Truth_Difference(t2,t1), false) \
  E(20, l[1]==l[4] && l[2]==l[5], S(0,':') L(1,3) L(2,0), Truth_Abduction(t1,t2), false) \
  E(21, l[1]==l[4] && l[2]==l[5], S(0,':') L(1,0) L(2,3), Truth_Abduction(t2,t1), false) \
  E(22, l[1]==l[4] && l[2]==l[5], S(0,'=') L(1,0) L(2,3), Truth_Comparison(t1,t2), false) \
  E(23, l[1]==l[4] && l[2]==l[5], S(0,'=') L(1,3) L(2,0), Truth_Comparison(t2,t1), false) \
  E(24, l[0]==l[5], S(0,':') S(1,'*') L(2,2) S(3,'*') L(4,1) L(7,3) L(8,4), Truth_Deduction(t1,t2), false) \
  E(25, l[2]==l[3], S(0,':') S(1,'*') L(2,5) S(3,'*') L(4,4) L(7,0) L(8,1), Truth_Deduction(t2,t1), false) \
  E(26, l[0]==l[3] && l[2]==l[5], S(0,':') L(1,4) L(2,1), Truth_Abduction(t1,t2), false) \
  E(27, l[0]==l[3] && l[2]==l[5], S(0,':') L(1,1) L(2,4), Truth_Abduction(t2,t1), false) \
  E(28, l[0]==l[3] && l[2]==l[5], S(0,'=') L(1,1) L(2,4), Truth_Comparison(t1,t2), false) \
  E(29, l[0]==l[3] && l[2]==l[5], S(0,'=') L(1,4) L(2,1), Truth_Comparison(t2,t1), false) \
  E(30, l[1]==l[5], S(0,':') S(1,'*') L(2,2) L(3,0) S(4,'*') L(9,3) L(10,4), Truth_Deduction(t1,t2), false) \
  E(31, l[2]==l[4], S(0,':') S(1,'*') L(2,5) L(3,3) S(4,'*') L(9,0) L(10,1), Truth_Deduction(t2,t1), false) \
  E(32, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'*') L(4,5) S(5,'*') L(6,2) L(7,0) L(8,1) L(11,0) L(12,1), Truth_Induction(t1,t2), true) \
  E(33, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'*') L(4,2) S(5,'*') L(6,5) L(7,3) L(8,4) L(11,3) L(12,4), Truth_Induction(t2,t1), true) \
  E(34, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'*') L(4,5) S(5,'*') L(6,2) L(7,0) L(8,1) L(11,0) L(12,1), Truth_Comparison(t1,t2), true) \
  E(35, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'*') L(4,2) S(5,'*') L(6,5) L(7,3) L(8,4) L(11,3) L(12,4), Truth_Comparison(t2,t1), true) \
  E(36, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') L(4,5) S(5,'*') L(6,2) L(7,0) L(8,1) L(11,0) L(12,1), Truth_Intersection(t1,t2), true) \
  E(37, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') L(4,2) S(5,'*') L(6,5) L(7,3) L(8,4) L(11,3) L(12,4), Truth_Intersection(t2,t1), true) \
  E(38, l[2]==l[5], S(0,'?') S(1,':') S(2,':') S(3,'*') L(4,2) S(5,'*') L(6,2) L(7,3) L(8,4) L(11,0) L(12,1), Truth_Induction(t1,t2), true) \
  E(39, l[2]==l[5], S(0,'?') S(1,':') S(2,':') S(3,'*') L(4,5) S(5,'*') L(6,5) L(7,0) L(8,1) L(11,3) L(12,4), Truth_Induction(t2,t1), true) \
  E(40, l[2]==l[5], S(0,'^') S(1,':') S(2,':') S(3,'*') L(4,2) S(5,'*') L(6,2) L(7,3) L(8,4) L(11,0) L(12,1), Truth_Comparison(t1,t2), true) \
  E(41, l[2]==l[5], S(0,'^') S(1,':') S(2,':') S(3,'*') L(4,5) S(5,'*') L(6,5) L(7,0) L(8,1) L(11,3) L(12,4), Truth_Comparison(t2,t1), true) \
  E(42, l[2]==l[5], S(0,';') S(1,':') S(2,':') S(3,'*') L(4,2) S(5,'*') L(6,2) L(7,3) L(8,4) L(11,0) L(12,1), Truth_Intersection(t1,t2), true) \
  E(43, l[2]==l[5], S(0,';') S(1,':') S(2,':') S(3,'*') L(4,5) S(5,'*') L(6,5) L(7,0) L(8,1) L(11,3) L(12,4), Truth_Intersection(t2,t1), true) \
  E(44, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,':') S(2,':') S(3,'*') L(4,5) S(5,'*') L(6,2) L(7,1) L(8,0) L(11,0) L(12,1), Truth_Induction(t1,t2), true) \
  E(45, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,':') S(2,':') S(3,'*') L(4,2) S(5,'*') L(6,5) L(7,4) L(8,3) L(11,3) L(12,4), Truth_Induction(t2,t1), true) \
  E(46, l[1]==l[3], S(0,';') S(1,':') S(2,':') S(3,'*') L(4,2) S(5,'*') L(6,5) L(7,0) L(8,1) L(11,1) L(12,4), Truth_Intersection(t1,t2), false) \
  E(47, l[0]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') L(4,5) S(5,'*') L(6,2) L(7,3) L(8,4) L(11,4) L(12,1), Truth_Intersection(t2,t1), false) \

#endif
#if CASE == 47
#define NL 6
#define NE 44
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) S(2,'*') L(5,1) L(6,2)
#define TERM2 S(0,':') L(1,3) S(2,'*') L(5,4) L(6,5)
#define EXPECTS \
  E(0, l[0]==l[3], S(0,':') S(1,'*') S(2,'*') L(3,4) L(4,5) L(5,1) L(6,2), Truth_Induction(t1,t2), false) \
  E(1, l[0]==l[3], S(0,':') S(1,'*') S(2,'*') L(3,1) L(4,2) L(5,4) L(6,5), Truth_Induction(t2,t1), false) \
  E(2, l[1]==l[4] && l[2]==l[5], S(0,':') L(1,3) L(2,0), Truth_Abduction(t1,t2), false) \
  E(3, l[1]==l[4] && l[2]==l[5], S(0,':') L(1,0) L(2,3), Truth_Abduction(t2,t1), false) \
  E(4, l[1]==l[4] && l[2]==l[5], S(0,'=') L(1,3) L(2,0), Truth_Comparison(t1,t2), false) \
  E(5, l[1]==l[4] && l[2]==l[5], S(0,'=') L(1,0) L(2,3), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[3], S(0,'=') S(1,'*') S(2,'*') L(3,4) L(4,5) L(5,1) L(6,2), Truth_Comparison(t1,t2), false) \
  E(7, l[0]==l[3], S(0,'=') S(1,'*') S(2,'*') L(3,1) L(4,2) L(5,4) L(6,5), Truth_Comparison(t2,t1), false) \
  E(8, l[1]==l[4] && l[2]==l[5], S(0,':') S(1,'|') S(2,'*') L(3,0) L(4,3) L(5,1) L(6,2), Truth_Intersection(t1,t2), false) \
  E(9, l[1]==l[4] && l[2]==l[5], S(0,':') S(1,'|') S(2,'*') L(3,3) L(4,0) L(5,4) L(6,5), Truth_Intersection(t2,t1), false) \
  E(10, l[1]==l[4] && l[2]==l[5], S(0,':') S(1,'&') S(2,'*') L(3,0) L(4,3) L(5,1) L(6,2), Truth_Union(t1,t2), false) \
  E(11, l[1]==l[4] && l[2]==l[5], S(0,':') S(1,'&') S(2,'*') L(3,3) L(4,0) L(5,4) L(6,5), Truth_Union(t2,t1), false) \
  E(12, l[1]==l[4] && l[2]==l[5], S(0,':') S(1,'~') S(2,'*') L(3,0) L(4,3) L(5,1) L(6,2), Truth_Difference(t1,t2), false) \
  E(13, l[1]==l[4] && l[2]==l[5], S(0,':') S(1,'~') S(2,'*') L(3,3) L(4,0) L(5,4) L(6,5), Truth_Difference(t2,t1), false) \
  E(14, l[0]==l[3], S(0,':') L(1,0) S(2,'&') S(5,'*') S(6,'*') L(11,1) L(12,2) L(13,4) L(14,5), Truth_Intersection(t1,t2), false) \
  E(15, l[0]==l[3], S(0,':') L(1,3) S(2,'&') S(5,'*') S(6,'*') L(11,4) L(12,5) L(13,1) L(14,2), Truth_Intersection(t2,t1), false) \
  E(16, l[0]==l[3], S(0,':') L(1,0) S(2,'|') S(5,'*') S(6,'*') L(11,1) L(12,2) L(13,4) L(14,5), Truth_Union(t1,t2), false) \
  E(17, l[0]==l[3], S(0,':') L(1,3) S(2,'|') S(5,'*') S(6,'*') L(11,4) L(12,5) L(13,1) L(14,2), Truth_Union(t2,t1), false) \
  E(18, l[0]==l[3], S(0,':') L(1,0) S(2,'-') S(5,'*') S(6,'*') L(11,1) L(12,2) L(13,4) L(14,5), Truth_Difference(t1,t2), false) \
  E(19, l[0]==l[3], S(0,':') L(1,3) S(2,'-') S(5,'*') S(6,'*') L(11,4) L(12,5) L(13,1) L(14,2), Truth_Difference(t2,t1), false) \
  E(20, l[0]==l[3] && l[2]==l[5], S(0,':') L(1,4) L(2,1), Truth_Induction(t1,t2), false) \
  E(21, l[0]==l[3] && l[2]==l[5], S(0,':') L(1,1) L(2,4), Truth_Induction(t2,t1), false) \
  E(22, l[0]==l[3] && l[2]==l[5], S(0,'=') L(1,1) L(2,4), Truth_Comparison(t1,t2), false) \
  E(23, l[0]==l[3] && l[2]==l[5], S(0,'=') L(1,4) L(2,1), Truth_Comparison(t2,t1), false) \
  E(24, l[1]==l[3], S(0,':') L(1,0) S(2,'*') S(5,'*') L(6,2) L(11,4) L(12,5), Truth_Deduction(t1,t2), false) \
  E(25, l[0]==l[4], S(0,':') L(1,3) S(2,'*') S(5,'*') L(6,5) L(11,1) L(12,2), Truth_Deduction(t2,t1), false) \
  E(26, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,5) L(2,2), Truth_Induction(t1,t2), false) \
  E(27, l[0]==l[3] && l[1]==l[4], S(0,':') L(1,2) L(2,5), Truth_Induction(t2,t1), false) \
  E(28, l[0]==l[3] && l[1]==l[4], S(0,'=') L(1,2) L(2,5), Truth_Comparison(t1,t2), false) \
  E(29, l[0]==l[3] && l[1]==l[4], S(0,'=') L(1,5) L(2,2), Truth_Comparison(t2,t1), false) \
  E(30, l[2]==l[3], S(0,':') L(1,0) S(2,'*') L(5,1) S(6,'*') L(13,4) L(14,5), Truth_Deduction(t1,t2), false) \
  E(31, l[0]==l[5], S(0,':') L(1,3) S(2,'*') L(5,4) S(6,'*') L(13,1) L(14,2), Truth_Deduction(t2,t1), false) \
  E(32, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,0) S(4,'*') L(5,0) S(6,'*') L(9,4) L(10,5) L(13,1) L(14,2), Truth_Induction(t1,t2), true) \
  E(33, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,3) S(4,'*') L(5,3) S(6,'*') L(9,1) L(10,2) L(13,4) L(14,5), Truth_Induction(t2,t1), true) \
  E(34, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,0) S(4,'*') L(5,0) S(6,'*') L(9,4) L(10,5) L(13,1) L(14,2), Truth_Comparison(t1,t2), true) \
  E(35, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,3) S(4,'*') L(5,3) S(6,'*') L(9,1) L(10,2) L(13,4) L(14,5), Truth_Comparison(t2,t1), true) \
  E(36, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,0) S(4,'*') L(5,0) S(6,'*') L(9,4) L(10,5) L(13,1) L(14,2), Truth_Intersection(t1,t2), true) \
  E(37, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,3) S(4,'*') L(5,3) S(6,'*') L(9,1) L(10,2) L(13,4) L(14,5), Truth_Intersection(t2,t1), true) \
  E(38, l[1]==l[4] && l[2]==l[5], S(0,'?') S(1,':') S(2,':') L(3,3) S(4,'*') L(5,0) S(6,'*') L(9,1) L(10,2) L(13,1) L(14,2), Truth_Induction(t1,t2), true) \
  E(39, l[1]==l[4] && l[2]==l[5], S(0,'?') S(1,':') S(2,':') L(3,0) S(4,'*') L(5,3) S(6,'*') L(9,4) L(10,5) L(13,4) L(14,5), Truth_Induction(t2,t1), true) \
  E(40, l[1]==l[4] && l[2]==l[5], S(0,'^') S(1,':') S(2,':') L(3,3) S(4,'*') L(5,0) S(6,'*') L(9,1) L(10,2) L(13,1) L(14,2), Truth_Comparison(t1,t2), true) \
  E(41, l[1]==l[4] && l[2]==l[5], S(0,'^') S(1,':') S(2,':') L(3,0) S(4,'*') L(5,3) S(6,'*') L(9,4) L(10,5) L(13,4) L(14,5), Truth_Comparison(t2,t1), true) \
  E(42, l[1]==l[4] && l[2]==l[5], S(0,';') S(1,':') S(2,':') L(3,3) S(4,'*') L(5,0) S(6,'*') L(9,1) L(10,2) L(13,1) L(14,2), Truth_Intersection(t1,t2), true) \
  E(43, l[1]==l[4] && l[2]==l[5], S(0,';') S(1,':') S(2,':') L(3,0) S(4,'*') L(5,3) S(6,'*') L(9,4) L(10,5) L(13,4) L(14,5), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 48
#define NL 5
#define NE 22
#define DOUBLE true
#define TERM1 S(0,':') S(1,'*') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,':') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[2]==l[3], S(0,':') S(1,'*') L(2,4) L(3,0) L(4,1), Truth_Deduction(t1,t2), false) \
  E(1, l[2]==l[4], S(0,':') L(1,3) S(2,'*') L(5,0) L(6,1), Truth_Abduction(t1,t2), false) \
  E(2, l[2]==l[4], S(0,':') S(1,'*') L(2,3) L(3,0) L(4,1), Truth_Abduction(t2,t1), false) \
  E(3, l[2]==l[3], S(0,':') L(1,4) S(2,'*') L(5,0) L(6,1), Truth_Exemplification(t1,t2), false) \
  E(4, l[2]==l[4], S(0,'=') L(1,3) S(2,'*') L(5,0) L(6,1), Truth_Comparison(t1,t2), false) \
  E(5, l[2]==l[4], S(0,'=') S(1,'*') L(2,3) L(3,0) L(4,1), Truth_Comparison(t2,t1), false) \
  E(6, l[2]==l[4], S(0,':') S(1,'|') L(2,2) S(3,'*') L(4,3) L(7,0) L(8,1), Truth_Intersection(t1,t2), false) \
  E(7, l[2]==l[4], S(0,':') S(1,'|') L(2,4) L(3,3) S(4,'*') L(9,0) L(10,1), Truth_Intersection(t2,t1), false) \
  E(8, l[2]==l[4], S(0,':') S(1,'&') L(2,2) S(3,'*') L(4,3) L(7,0) L(8,1), Truth_Union(t1,t2), false) \
  E(9, l[2]==l[4], S(0,':') S(1,'&') L(2,4) L(3,3) S(4,'*') L(9,0) L(10,1), Truth_Union(t2,t1), false) \
  E(10, l[2]==l[4], S(0,':') S(1,'~') L(2,2) S(3,'*') L(4,3) L(7,0) L(8,1), Truth_Difference(t1,t2), false) \
  E(11, l[2]==l[4], S(0,':') S(1,'~') L(2,4) L(3,3) S(4,'*') L(9,0) L(10,1), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[4], S(0,':') S(1,'*') L(2,2) L(3,3) L(4,1), Truth_Deduction(t1,t2), false) \
  E(13, l[0]==l[3], S(0,':') S(1,'*') L(2,2) L(3,4) L(4,1), Truth_Induction(t1,t2), false) \
  E(14, l[1]==l[4], S(0,':') S(1,'*') L(2,2) L(3,0) L(4,3), Truth_Deduction(t1,t2), false) \
  E(15, l[1]==l[3], S(0,':') S(1,'*') L(2,2) L(3,0) L(4,4), Truth_Induction(t1,t2), false) \
  E(16, l[2]==l[4], S(0,'?') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'*') L(6,2) L(11,0) L(12,1), Truth_Induction(t1,t2), true) \
  E(17, l[2]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'*') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Induction(t2,t1), true) \
  E(18, l[2]==l[4], S(0,'^') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'*') L(6,2) L(11,0) L(12,1), Truth_Comparison(t1,t2), true) \
  E(19, l[2]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'*') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Comparison(t2,t1), true) \
  E(20, l[2]==l[4], S(0,';') S(1,':') S(2,':') L(3,3) L(4,2) S(5,'*') L(6,2) L(11,0) L(12,1), Truth_Intersection(t1,t2), true) \
  E(21, l[2]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') L(4,4) L(5,3) L(6,4) L(7,0) L(8,1), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 49
#define NL 5
#define NE 22
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,':') S(1,'*') L(2,4) L(3,2) L(4,3)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,':') S(1,'*') L(2,1) L(3,2) L(4,3), Truth_Deduction(t2,t1), false) \
  E(1, l[1]==l[4], S(0,':') S(1,'*') L(2,0) L(3,2) L(4,3), Truth_Abduction(t1,t2), false) \
  E(2, l[1]==l[4], S(0,':') L(1,0) S(2,'*') L(5,2) L(6,3), Truth_Abduction(t2,t1), false) \
  E(3, l[0]==l[4], S(0,':') L(1,1) S(2,'*') L(5,2) L(6,3), Truth_Exemplification(t2,t1), false) \
  E(4, l[1]==l[4], S(0,'=') S(1,'*') L(2,0) L(3,2) L(4,3), Truth_Comparison(t1,t2), false) \
  E(5, l[1]==l[4], S(0,'=') L(1,0) S(2,'*') L(5,2) L(6,3), Truth_Comparison(t2,t1), false) \
  E(6, l[1]==l[4], S(0,':') S(1,'|') L(2,1) L(3,0) S(4,'*') L(9,2) L(10,3), Truth_Intersection(t1,t2), false) \
  E(7, l[1]==l[4], S(0,':') S(1,'|') L(2,4) S(3,'*') L(4,0) L(7,2) L(8,3), Truth_Intersection(t2,t1), false) \
  E(8, l[1]==l[4], S(0,':') S(1,'&') L(2,1) L(3,0) S(4,'*') L(9,2) L(10,3), Truth_Union(t1,t2), false) \
  E(9, l[1]==l[4], S(0,':') S(1,'&') L(2,4) S(3,'*') L(4,0) L(7,2) L(8,3), Truth_Union(t2,t1), false) \
  E(10, l[1]==l[4], S(0,':') S(1,'~') L(2,1) L(3,0) S(4,'*') L(9,2) L(10,3), Truth_Difference(t1,t2), false) \
  E(11, l[1]==l[4], S(0,':') S(1,'~') L(2,4) S(3,'*') L(4,0) L(7,2) L(8,3), Truth_Difference(t2,t1), false) \
  E(12, l[1]==l[2], S(0,':') S(1,'*') L(2,4) L(3,0) L(4,3), Truth_Deduction(t2,t1), false) \
  E(13, l[0]==l[2], S(0,':') S(1,'*') L(2,4) L(3,1) L(4,3), Truth_Induction(t2,t1), false) \
  E(14, l[1]==l[3], S(0,':') S(1,'*') L(2,4) L(3,2) L(4,0), Truth_Deduction(t2,t1), false) \
  E(15, l[0]==l[3], S(0,':') S(1,'*') L(2,4) L(3,2) L(4,1), Truth_Induction(t2,t1), false) \
  E(16, l[1]==l[4], S(0,'?') S(1,':') S(2,':') S(3,'*') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Induction(t1,t2), true) \
  E(17, l[1]==l[4], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'*') L(6,4) L(11,2) L(12,3), Truth_Induction(t2,t1), true) \
  E(18, l[1]==l[4], S(0,'^') S(1,':') S(2,':') S(3,'*') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Comparison(t1,t2), true) \
  E(19, l[1]==l[4], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'*') L(6,4) L(11,2) L(12,3), Truth_Comparison(t2,t1), true) \
  E(20, l[1]==l[4], S(0,';') S(1,':') S(2,':') S(3,'*') L(4,1) L(5,0) L(6,1) L(7,2) L(8,3), Truth_Intersection(t1,t2), true) \
  E(21, l[1]==l[4], S(0,';') S(1,':') S(2,':') L(3,0) L(4,4) S(5,'*') L(6,4) L(11,2) L(12,3), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 50
#define NL 5
#define NE 3
#define DOUBLE true
#define TERM1 S(0,':') S(1,'*') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,'=') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[2]==l[4], S(0,':') S(1,'*') L(2,3) L(3,0) L(4,1), Truth_Analogy(t1,t2), false) \
  E(1, l[0]==l[4], S(0,':') S(1,'*') L(2,2) L(3,3) L(4,1), Truth_Analogy(t1,t2), false) \
  E(2, l[1]==l[4], S(0,':') S(1,'*') L(2,2) L(3,0) L(4,3), Truth_Analogy(t1,t2), false) \

#endif
#if CASE == 51
#define NL 5
#define NE 3
#define DOUBLE true
#define TERM1 S(0,'=') L(1,0) L(2,1)
#define TERM2 S(0,':') S(1,'*') L(2,4) L(3,2) L(4,3)
#define EXPECTS \
  E(0, l[1]==l[4], S(0,':') S(1,'*') L(2,0) L(3,2) L(4,3), Truth_Analogy(t2,t1), false) \
  E(1, l[1]==l[2], S(0,':') S(1,'*') L(2,4) L(3,0) L(4,3), Truth_Analogy(t2,t1), false) \
  E(2, l[1]==l[3], S(0,':') S(1,'*') L(2,4) L(3,2) L(4,0), Truth_Analogy(t2,t1), false) \

#endif
#if CASE == 52
#define NL 5
#define NE 22
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) S(2,'*') L(5,1) L(6,2)
#define TERM2 S(0,':') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,':') L(1,3) S(2,'*') L(5,1) L(6,2), Truth_Deduction(t2,t1), false) \
  E(1, l[0]==l[3], S(0,':') L(1,4) S(2,'*') L(5,1) L(6,2), Truth_Induction(t1,t2), false) \
  E(2, l[0]==l[3], S(0,':') S(1,'*') L(2,4) L(3,1) L(4,2), Truth_Induction(t2,t1), false) \
  E(3, l[0]==l[4], S(0,':') S(1,'*') L(2,3) L(3,1) L(4,2), Truth_Exemplification(t2,t1), false) \
  E(4, l[0]==l[3], S(0,'=') L(1,4) S(2,'*') L(5,1) L(6,2), Truth_Comparison(t1,t2), false) \
  E(5, l[0]==l[3], S(0,'=') S(1,'*') L(2,4) L(3,1) L(4,2), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[3], S(0,':') L(1,0) S(2,'&') S(5,'*') L(6,4) L(11,1) L(12,2), Truth_Intersection(t1,t2), false) \
  E(7, l[0]==l[3], S(0,':') L(1,3) S(2,'&') L(5,4) S(6,'*') L(13,1) L(14,2), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[3], S(0,':') L(1,0) S(2,'|') S(5,'*') L(6,4) L(11,1) L(12,2), Truth_Union(t1,t2), false) \
  E(9, l[0]==l[3], S(0,':') L(1,3) S(2,'|') L(5,4) S(6,'*') L(13,1) L(14,2), Truth_Union(t2,t1), false) \
  E(10, l[0]==l[3], S(0,':') L(1,0) S(2,'-') S(5,'*') L(6,4) L(11,1) L(12,2), Truth_Difference(t1,t2), false) \
  E(11, l[0]==l[3], S(0,':') L(1,3) S(2,'-') L(5,4) S(6,'*') L(13,1) L(14,2), Truth_Difference(t2,t1), false) \
  E(12, l[1]==l[3], S(0,':') L(1,0) S(2,'*') L(5,4) L(6,2), Truth_Deduction(t1,t2), false) \
  E(13, l[1]==l[4], S(0,':') L(1,0) S(2,'*') L(5,3) L(6,2), Truth_Abduction(t2,t1), false) \
  E(14, l[2]==l[3], S(0,':') L(1,0) S(2,'*') L(5,1) L(6,4), Truth_Deduction(t1,t2), false) \
  E(15, l[2]==l[4], S(0,':') L(1,0) S(2,'*') L(5,1) L(6,3), Truth_Abduction(t2,t1), false) \
  E(16, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'*') L(13,1) L(14,2), Truth_Induction(t1,t2), true) \
  E(17, l[0]==l[3], S(0,'?') S(1,':') S(2,':') L(3,3) S(4,'*') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Induction(t2,t1), true) \
  E(18, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'*') L(13,1) L(14,2), Truth_Comparison(t1,t2), true) \
  E(19, l[0]==l[3], S(0,'^') S(1,':') S(2,':') L(3,3) S(4,'*') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Comparison(t2,t1), true) \
  E(20, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,0) L(4,4) L(5,0) S(6,'*') L(13,1) L(14,2), Truth_Intersection(t1,t2), true) \
  E(21, l[0]==l[3], S(0,';') S(1,':') S(2,':') L(3,3) S(4,'*') L(5,3) L(6,4) L(9,1) L(10,2), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 53
#define NL 5
#define NE 22
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,':') L(1,2) S(2,'*') L(5,3) L(6,4)
#define EXPECTS \
  E(0, l[1]==l[2], S(0,':') L(1,0) S(2,'*') L(5,3) L(6,4), Truth_Deduction(t1,t2), false) \
  E(1, l[0]==l[2], S(0,':') S(1,'*') L(2,1) L(3,3) L(4,4), Truth_Induction(t1,t2), false) \
  E(2, l[0]==l[2], S(0,':') L(1,1) S(2,'*') L(5,3) L(6,4), Truth_Induction(t2,t1), false) \
  E(3, l[1]==l[2], S(0,':') S(1,'*') L(2,0) L(3,3) L(4,4), Truth_Exemplification(t1,t2), false) \
  E(4, l[0]==l[2], S(0,'=') S(1,'*') L(2,1) L(3,3) L(4,4), Truth_Comparison(t1,t2), false) \
  E(5, l[0]==l[2], S(0,'=') L(1,1) S(2,'*') L(5,3) L(6,4), Truth_Comparison(t2,t1), false) \
  E(6, l[0]==l[2], S(0,':') L(1,0) S(2,'&') L(5,1) S(6,'*') L(13,3) L(14,4), Truth_Intersection(t1,t2), false) \
  E(7, l[0]==l[2], S(0,':') L(1,2) S(2,'&') S(5,'*') L(6,1) L(11,3) L(12,4), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[2], S(0,':') L(1,0) S(2,'|') L(5,1) S(6,'*') L(13,3) L(14,4), Truth_Union(t1,t2), false) \
  E(9, l[0]==l[2], S(0,':') L(1,2) S(2,'|') S(5,'*') L(6,1) L(11,3) L(12,4), Truth_Union(t2,t1), false) \
  E(10, l[0]==l[2], S(0,':') L(1,0) S(2,'-') L(5,1) S(6,'*') L(13,3) L(14,4), Truth_Difference(t1,t2), false) \
  E(11, l[0]==l[2], S(0,':') L(1,2) S(2,'-') S(5,'*') L(6,1) L(11,3) L(12,4), Truth_Difference(t2,t1), false) \
  E(12, l[0]==l[3], S(0,':') L(1,2) S(2,'*') L(5,1) L(6,4), Truth_Deduction(t2,t1), false) \
  E(13, l[1]==l[3], S(0,':') L(1,2) S(2,'*') L(5,0) L(6,4), Truth_Abduction(t1,t2), false) \
  E(14, l[0]==l[4], S(0,':') L(1,2) S(2,'*') L(5,3) L(6,1), Truth_Deduction(t2,t1), false) \
  E(15, l[1]==l[4], S(0,':') L(1,2) S(2,'*') L(5,3) L(6,0), Truth_Abduction(t1,t2), false) \
  E(16, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,0) S(4,'*') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Induction(t1,t2), true) \
  E(17, l[0]==l[2], S(0,'?') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'*') L(13,3) L(14,4), Truth_Induction(t2,t1), true) \
  E(18, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,0) S(4,'*') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Comparison(t1,t2), true) \
  E(19, l[0]==l[2], S(0,'^') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'*') L(13,3) L(14,4), Truth_Comparison(t2,t1), true) \
  E(20, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,0) S(4,'*') L(5,0) L(6,1) L(9,3) L(10,4), Truth_Intersection(t1,t2), true) \
  E(21, l[0]==l[2], S(0,';') S(1,':') S(2,':') L(3,2) L(4,1) L(5,2) S(6,'*') L(13,3) L(14,4), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 54
#define NL 5
#define NE 3
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) S(2,'*') L(5,1) L(6,2)
#define TERM2 S(0,'=') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,':') L(1,3) S(2,'*') L(5,1) L(6,2), Truth_Analogy(t1,t2), false) \
  E(1, l[1]==l[4], S(0,':') L(1,0) S(2,'*') L(5,3) L(6,2), Truth_Analogy(t1,t2), false) \
  E(2, l[2]==l[4], S(0,':') L(1,0) S(2,'*') L(5,1) L(6,3), Truth_Analogy(t1,t2), false) \

#endif
#if CASE == 55
#define NL 5
#define NE 3
#define DOUBLE true
#define TERM1 S(0,'=') L(1,0) L(2,1)
#define TERM2 S(0,':') L(1,2) S(2,'*') L(5,3) L(6,4)
#define EXPECTS \
  E(0, l[1]==l[2], S(0,':') L(1,0) S(2,'*') L(5,3) L(6,4), Truth_Analogy(t2,t1), false) \
  E(1, l[1]==l[3], S(0,':') L(1,2) S(2,'*') L(5,0) L(6,4), Truth_Analogy(t2,t1), false) \
  E(2, l[1]==l[4], S(0,':') L(1,2) S(2,'*') L(5,3) L(6,0), Truth_Analogy(t2,t1), false) \

#endif
#if CASE == 56
#define NL 1
#define NE 1
#define DOUBLE false
#define TERM1 S(0,'!') L(1,0) S(2,'@')
#define TERM2 
#define EXPECTS \
  E(0, true, L(0,0), Truth_Negation(t1,t2), false) \

#endif
#if CASE == 57
#define NL 2
#define NE 3
#define DOUBLE false
#define TERM1 S(0,';') L(1,0) L(2,1)
#define TERM2 
#define EXPECTS \
  E(0, true, L(0,0), Truth_StructuralDeduction(t1,t2), false) \
  E(1, true, L(0,1), Truth_StructuralDeduction(t1,t2), false) \
  E(2, true, S(0,';') L(1,1) L(2,0), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 58
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 L(0,0)
#define TERM2 S(0,';') L(1,1) L(2,2)
#define EXPECTS \
  E(0, l[0]==l[1], L(0,2), Truth_DecomposePNN(t1,t2), false) \

#endif
#if CASE == 59
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 S(0,';') L(1,0) L(2,1)
#define TERM2 L(0,2)
#define EXPECTS \
  E(0, l[0]==l[2], L(0,1), Truth_DecomposePNN(t2,t1), false) \

#endif
#if CASE == 60
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 L(0,0)
#define TERM2 S(0,'_') L(1,1) L(2,2)
#define EXPECTS \
  E(0, l[0]==l[1], L(0,2), Truth_DecomposeNPP(t1,t2), false) \

#endif
#if CASE == 61
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 S(0,'_') L(1,0) L(2,1)
#define TERM2 L(0,2)
#define EXPECTS \
  E(0, l[0]==l[2], L(0,1), Truth_DecomposeNPP(t2,t1), false) \

#endif
#if CASE == 62
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 L(0,0)
#define TERM2 S(0,';') S(1,'!') L(2,2) L(3,1) S(4,'@')
#define EXPECTS \
  E(0, l[0]==l[1], L(0,2), Truth_DecomposeNNN(t1,t2), false) \

#endif
#if CASE == 63
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 S(0,';') S(1,'!') L(2,1) L(3,0) S(4,'@')
#define TERM2 L(0,2)
#define EXPECTS \
  E(0, l[0]==l[2], L(0,1), Truth_DecomposeNNN(t2,t1), false) \

#endif
#if CASE == 64
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 L(0,0)
#define TERM2 S(0,'_') S(1,'!') L(2,2) L(3,1) S(4,'@')
#define EXPECTS \
  E(0, l[0]==l[1], L(0,2), Truth_DecomposePPP(t1,t2), false) \

#endif
#if CASE == 65
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 S(0,'_') S(1,'!') L(2,1) L(3,0) S(4,'@')
#define TERM2 L(0,2)
#define EXPECTS \
  E(0, l[0]==l[2], L(0,1), Truth_DecomposePPP(t2,t1), false) \

#endif
#if CASE == 66
#define NL 4
#define NE 24
#define DOUBLE true
#define TERM1 S(0,'?') L(1,0) L(2,1)
#define TERM2 S(0,'?') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[1]==l[2], S(0,'?') L(1,0) L(2,3), Truth_Deduction(t1,t2), false) \
  E(1, l[0]==l[3], S(0,'?') L(1,2) L(2,1), Truth_Deduction(t2,t1), false) \
  E(2, l[0]==l[2], S(0,'?') L(1,3) L(2,1), Truth_Induction(t1,t2), false) \
  E(3, l[0]==l[2], S(0,'?') L(1,1) L(2,3), Truth_Induction(t2,t1), false) \
  E(4, l[1]==l[3], S(0,'?') L(1,2) L(2,0), Truth_Abduction(t1,t2), false) \
  E(5, l[1]==l[3], S(0,'?') L(1,0) L(2,2), Truth_Abduction(t2,t1), false) \
  E(6, l[1]==l[2], S(0,'?') L(1,3) L(2,0), Truth_Exemplification(t1,t2), false) \
  E(7, l[0]==l[3], S(0,'?') L(1,1) L(2,2), Truth_Exemplification(t2,t1), false) \
  E(8, l[1]==l[3], S(0,'?') S(1,';') L(2,1) L(3,0) L(4,2), Truth_Union(t1,t2), false) \
  E(9, l[1]==l[3], S(0,'?') S(1,';') L(2,3) L(3,2) L(4,0), Truth_Union(t2,t1), false) \
  E(10, l[1]==l[3], S(0,'?') S(1,'_') L(2,1) L(3,0) L(4,2), Truth_Intersection(t1,t2), false) \
  E(11, l[1]==l[3], S(0,'?') S(1,'_') L(2,3) L(3,2) L(4,0), Truth_Intersection(t2,t1), false) \
  E(12, l[0]==l[2], S(0,'?') L(1,0) S(2,';') L(5,1) L(6,3), Truth_Intersection(t1,t2), false) \
  E(13, l[0]==l[2], S(0,'?') L(1,2) S(2,';') L(5,3) L(6,1), Truth_Intersection(t2,t1), false) \
  E(14, l[0]==l[2], S(0,'?') L(1,0) S(2,'_') L(5,1) L(6,3), Truth_Union(t1,t2), false) \
  E(15, l[0]==l[2], S(0,'?') L(1,2) S(2,'_') L(5,3) L(6,1), Truth_Union(t2,t1), false) \
  E(16, l[0]==l[3] && l[1]==l[2], S(0,'^') L(1,0) L(2,1), Truth_Intersection(t1,t2), false) \
  E(17, l[0]==l[3] && l[1]==l[2], S(0,'^') L(1,2) L(2,3), Truth_Intersection(t2,t1), false) \
  E(18, l[1]==l[3], S(0,'^') L(1,2) L(2,0), Truth_Comparison(t1,t2), false) \
  E(19, l[1]==l[3], S(0,'^') L(1,0) L(2,2), Truth_Comparison(t2,t1), false) \
  E(20, l[0]==l[2], S(0,'^') L(1,3) L(2,1), Truth_Comparison(t1,t2), false) \
  E(21, l[0]==l[2], S(0,'^') L(1,1) L(2,3), Truth_Comparison(t2,t1), false) \
  E(22, true, S(0,'?') S(1,';') L(2,1) S(3,'?') L(4,0) L(7,2) L(8,3), Truth_Induction(t1,t2), true) \
  E(23, true, S(0,'?') S(1,';') L(2,3) S(3,'?') L(4,2) L(7,0) L(8,1), Truth_Induction(t2,t1), true) \

#endif
#if CASE == 67
#define NL 5
#define NE 15
#define DOUBLE true
#define TERM1 S(0,'?') S(1,';') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,'?') L(1,3) L(2,4)
#define EXPECTS \
  E(0, l[2]==l[3], S(0,'?') S(1,';') L(2,4) L(3,0) L(4,1), Truth_Deduction(t1,t2), false) \
  E(1, l[2]==l[4], S(0,'?') L(1,3) S(2,';') L(5,0) L(6,1), Truth_Abduction(t1,t2), false) \
  E(2, l[2]==l[4], S(0,'?') S(1,';') L(2,3) L(3,0) L(4,1), Truth_Abduction(t2,t1), false) \
  E(3, l[2]==l[3], S(0,'?') L(1,4) S(2,';') L(5,0) L(6,1), Truth_Exemplification(t1,t2), false) \
  E(4, l[2]==l[4], S(0,'?') S(1,';') L(2,2) S(3,';') L(4,3) L(7,0) L(8,1), Truth_Union(t1,t2), false) \
  E(5, l[2]==l[4], S(0,'?') S(1,';') L(2,4) L(3,3) S(4,';') L(9,0) L(10,1), Truth_Union(t2,t1), false) \
  E(6, l[2]==l[4], S(0,'?') S(1,'_') L(2,2) S(3,';') L(4,3) L(7,0) L(8,1), Truth_Intersection(t1,t2), false) \
  E(7, l[2]==l[4], S(0,'?') S(1,'_') L(2,4) L(3,3) S(4,';') L(9,0) L(10,1), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[3] && l[2]==l[4], L(0,1), Truth_Abduction(t1,t2), false) \
  E(9, l[1]==l[4], S(0,'?') S(1,';') L(2,2) L(3,0) L(4,3), Truth_Deduction(t1,t2), false) \
  E(10, l[1]==l[3], S(0,'?') S(1,';') L(2,2) L(3,0) L(4,4), Truth_Induction(t1,t2), false) \
  E(11, l[2]==l[4], S(0,'^') L(1,3) S(2,';') L(5,0) L(6,1), Truth_Comparison(t1,t2), false) \
  E(12, l[2]==l[4], S(0,'^') S(1,';') L(2,3) L(3,0) L(4,1), Truth_Comparison(t2,t1), false) \
  E(13, true, S(0,'?') S(1,';') L(2,2) S(3,'?') S(4,';') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Induction(t1,t2), true) \
  E(14, true, S(0,'?') S(1,';') L(2,4) S(3,'?') L(4,3) S(7,';') L(8,2) L(15,0) L(16,1), Truth_Induction(t2,t1), true) \

#endif
#if CASE == 68
#define NL 5
#define NE 15
#define DOUBLE true
#define TERM1 S(0,'?') L(1,0) L(2,1)
#define TERM2 S(0,'?') S(1,';') L(2,4) L(3,2) L(4,3)
#define EXPECTS \
  E(0, l[0]==l[4], S(0,'?') S(1,';') L(2,1) L(3,2) L(4,3), Truth_Deduction(t2,t1), false) \
  E(1, l[1]==l[4], S(0,'?') S(1,';') L(2,0) L(3,2) L(4,3), Truth_Abduction(t1,t2), false) \
  E(2, l[1]==l[4], S(0,'?') L(1,0) S(2,';') L(5,2) L(6,3), Truth_Abduction(t2,t1), false) \
  E(3, l[0]==l[4], S(0,'?') L(1,1) S(2,';') L(5,2) L(6,3), Truth_Exemplification(t2,t1), false) \
  E(4, l[1]==l[4], S(0,'?') S(1,';') L(2,1) L(3,0) S(4,';') L(9,2) L(10,3), Truth_Union(t1,t2), false) \
  E(5, l[1]==l[4], S(0,'?') S(1,';') L(2,4) S(3,';') L(4,0) L(7,2) L(8,3), Truth_Union(t2,t1), false) \
  E(6, l[1]==l[4], S(0,'?') S(1,'_') L(2,1) L(3,0) S(4,';') L(9,2) L(10,3), Truth_Intersection(t1,t2), false) \
  E(7, l[1]==l[4], S(0,'?') S(1,'_') L(2,4) S(3,';') L(4,0) L(7,2) L(8,3), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[2] && l[1]==l[4], L(0,3), Truth_Abduction(t2,t1), false) \
  E(9, l[1]==l[3], S(0,'?') S(1,';') L(2,4) L(3,2) L(4,0), Truth_Deduction(t2,t1), false) \
  E(10, l[0]==l[3], S(0,'?') S(1,';') L(2,4) L(3,2) L(4,1), Truth_Induction(t2,t1), false) \
  E(11, l[1]==l[4], S(0,'^') S(1,';') L(2,0) L(3,2) L(4,3), Truth_Comparison(t1,t2), false) \
  E(12, l[1]==l[4], S(0,'^') L(1,0) S(2,';') L(5,2) L(6,3), Truth_Comparison(t2,t1), false) \
  E(13, true, S(0,'?') S(1,';') L(2,1) S(3,'?') L(4,0) S(7,';') L(8,4) L(15,2) L(16,3), Truth_Induction(t1,t2), true) \
  E(14, true, S(0,'?') S(1,';') L(2,4) S(3,'?') S(4,';') L(7,0) L(8,1) L(9,2) L(10,3), Truth_Induction(t2,t1), true) \

#endif
#if CASE == 69
#define NL 6
#define NE 22
#define DOUBLE true
#define TERM1 S(0,'?') S(1,';') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,'?') S(1,';') L(2,5) L(3,3) L(4,4)
#define EXPECTS \
  E(0, l[0]==l[3] && l[1]==l[4], S(0,'?') L(1,5) L(2,2), Truth_Induction(t1,t2), false) \
  E(1, l[0]==l[3] && l[1]==l[4], S(0,'?') L(1,2) L(2,5), Truth_Induction(t2,t1), false) \
  E(2, l[2]==l[5], S(0,'?') S(1,';') S(2,';') L(3,3) L(4,4) L(5,0) L(6,1), Truth_Abduction(t1,t2), false) \
  E(3, l[2]==l[5], S(0,'?') S(1,';') S(2,';') L(3,0) L(4,1) L(5,3) L(6,4), Truth_Abduction(t2,t1), false) \
  E(4, l[2]==l[5], S(0,'?') S(1,';') L(2,2) S(3,';') S(4,';') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Union(t1,t2), false) \
  E(5, l[2]==l[5], S(0,'?') S(1,';') L(2,5) S(3,';') S(4,';') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Union(t2,t1), false) \
  E(6, l[2]==l[5], S(0,'?') S(1,'_') L(2,2) S(3,';') S(4,';') L(7,0) L(8,1) L(9,3) L(10,4), Truth_Intersection(t1,t2), false) \
  E(7, l[2]==l[5], S(0,'?') S(1,'_') L(2,5) S(3,';') S(4,';') L(7,3) L(8,4) L(9,0) L(10,1), Truth_Intersection(t2,t1), false) \
  E(8, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,';') S(2,';') L(3,0) L(4,1) L(5,2) L(6,5), Truth_Intersection(t1,t2), false) \
  E(9, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,';') S(2,';') L(3,3) L(4,4) L(5,5) L(6,2), Truth_Intersection(t2,t1), false) \
  E(10, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,';') S(2,'_') L(3,0) L(4,1) L(5,2) L(6,5), Truth_Union(t1,t2), false) \
  E(11, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,';') S(2,'_') L(3,3) L(4,4) L(5,5) L(6,2), Truth_Union(t2,t1), false) \
  E(12, l[1]==l[5], S(0,'?') S(1,';') L(2,2) L(3,0) S(4,';') L(9,3) L(10,4), Truth_Deduction(t1,t2), false) \
  E(13, l[2]==l[4], S(0,'?') S(1,';') L(2,5) L(3,3) S(4,';') L(9,0) L(10,1), Truth_Deduction(t2,t1), false) \
  E(14, l[0]==l[3] && l[2]==l[5], S(0,'?') L(1,4) L(2,1), Truth_Abduction(t1,t2), false) \
  E(15, l[0]==l[3] && l[2]==l[5], S(0,'?') L(1,1) L(2,4), Truth_Abduction(t2,t1), false) \
  E(16, l[2]==l[5], S(0,'^') S(1,';') S(2,';') L(3,3) L(4,4) L(5,0) L(6,1), Truth_Comparison(t1,t2), false) \
  E(17, l[2]==l[5], S(0,'^') S(1,';') S(2,';') L(3,0) L(4,1) L(5,3) L(6,4), Truth_Comparison(t2,t1), false) \
  E(18, l[0]==l[3] && l[1]==l[4], S(0,'^') L(1,5) L(2,2), Truth_Comparison(t1,t2), false) \
  E(19, l[0]==l[3] && l[1]==l[4], S(0,'^') L(1,2) L(2,5), Truth_Comparison(t2,t1), false) \
  E(20, true, S(0,'?') S(1,';') L(2,2) S(3,'?') S(4,';') S(7,';') L(8,5) L(9,0) L(10,1) L(15,3) L(16,4), Truth_Induction(t1,t2), true) \
  E(21, true, S(0,'?') S(1,';') L(2,5) S(3,'?') S(4,';') S(7,';') L(8,2) L(9,3) L(10,4) L(15,0) L(16,1), Truth_Induction(t2,t1), true) \

#endif
#if CASE == 70
#define NL 2
#define NE 1
#define DOUBLE false
#define TERM1 S(0,'^') L(1,0) L(2,1)
#define TERM2 
#define EXPECTS \
  E(0, true, S(0,'^') L(1,1) L(2,0), Truth_StructuralIntersection(t1,t2), false) \

#endif
#if CASE == 71
#define NL 4
#define NE 3
#define DOUBLE true
#define TERM1 S(0,'?') L(1,0) L(2,1)
#define TERM2 S(0,'^') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[0]==l[3], S(0,'?') L(1,2) L(2,1), Truth_Analogy(t1,t2), false) \
  E(1, l[1]==l[3], S(0,'?') L(1,0) L(2,2), Truth_Analogy(t1,t2), false) \
  E(2, true, S(0,'?') S(1,';') L(2,1) S(3,'^') L(4,0) L(7,2) L(8,3), Truth_Induction(t1,t2), true) \

#endif
#if CASE == 72
#define NL 4
#define NE 3
#define DOUBLE true
#define TERM1 S(0,'^') L(1,0) L(2,1)
#define TERM2 S(0,'?') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[1]==l[2], S(0,'?') L(1,0) L(2,3), Truth_Analogy(t2,t1), false) \
  E(1, l[1]==l[3], S(0,'?') L(1,2) L(2,0), Truth_Analogy(t2,t1), false) \
  E(2, true, S(0,'?') S(1,';') L(2,3) S(3,'^') L(4,2) L(7,0) L(8,1), Truth_Induction(t2,t1), true) \

#endif
#if CASE == 73
#define NL 4
#define NE 2
#define DOUBLE true
#define TERM1 S(0,'^') L(1,0) L(2,1)
#define TERM2 S(0,'^') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[0]==l[3], S(0,'^') L(1,2) L(2,1), Truth_Resemblance(t1,t2), false) \
  E(1, l[1]==l[2], S(0,'^') L(1,0) L(2,3), Truth_Resemblance(t2,t1), false) \

#endif
#if CASE == 74
#define NL 4
#define NE 12
#define DOUBLE true
#define TERM1 S(0,'!') S(1,':') S(2,'@') L(3,0) L(4,1)
#define TERM2 S(0,':') L(1,2) L(2,3)
#define EXPECTS \
  E(0, l[0]==l[2], S(0,'?') S(1,':') S(2,'!') L(3,0) L(4,3) S(5,':') S(6,'@') L(11,0) L(12,1), Truth_Induction(t1,t2), true) \
  E(1, l[0]==l[2], S(0,'^') S(1,':') S(2,'!') L(3,0) L(4,3) S(5,':') S(6,'@') L(11,0) L(12,1), Truth_Comparison(t1,t2), true) \
  E(2, l[0]==l[2], S(0,';') S(1,':') S(2,'!') L(3,0) L(4,3) S(5,':') S(6,'@') L(11,0) L(12,1), Truth_Intersection(t1,t2), true) \
  E(3, l[0]==l[2], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,2) L(6,3) L(7,2) L(8,1), Truth_Induction(t2,t1), true) \
  E(4, l[0]==l[2], S(0,'^') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,2) L(6,3) L(7,2) L(8,1), Truth_Comparison(t2,t1), true) \
  E(5, l[0]==l[2], S(0,';') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,2) L(6,3) L(7,2) L(8,1), Truth_Intersection(t2,t1), true) \
  E(6, l[1]==l[3], S(0,'?') S(1,':') S(2,'!') L(3,2) L(4,1) S(5,':') S(6,'@') L(11,0) L(12,1), Truth_Induction(t1,t2), true) \
  E(7, l[1]==l[3], S(0,'^') S(1,':') S(2,'!') L(3,2) L(4,1) S(5,':') S(6,'@') L(11,0) L(12,1), Truth_Comparison(t1,t2), true) \
  E(8, l[1]==l[3], S(0,';') S(1,':') S(2,'!') L(3,2) L(4,1) S(5,':') S(6,'@') L(11,0) L(12,1), Truth_Intersection(t1,t2), true) \
  E(9, l[1]==l[3], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,2) L(6,3) L(7,0) L(8,3), Truth_Induction(t2,t1), true) \
  E(10, l[1]==l[3], S(0,'^') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,2) L(6,3) L(7,0) L(8,3), Truth_Comparison(t2,t1), true) \
  E(11, l[1]==l[3], S(0,';') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,2) L(6,3) L(7,0) L(8,3), Truth_Intersection(t2,t1), true) \

#endif
#if CASE == 75
#define NL 4
#define NE 12
#define DOUBLE true
#define TERM1 S(0,':') L(1,0) L(2,1)
#define TERM2 S(0,'!') S(1,':') S(2,'@') L(3,2) L(4,3)
#define EXPECTS \
  E(0, l[0]==l[2], S(0,'?') S(1,':') S(2,'!') L(3,2) L(4,1) S(5,':') S(6,'@') L(11,2) L(12,3), Truth_Induction(t2,t1), true) \
  E(1, l[0]==l[2], S(0,'^') S(1,':') S(2,'!') L(3,2) L(4,1) S(5,':') S(6,'@') L(11,2) L(12,3), Truth_Comparison(t2,t1), true) \
  E(2, l[0]==l[2], S(0,';') S(1,':') S(2,'!') L(3,2) L(4,1) S(5,':') S(6,'@') L(11,2) L(12,3), Truth_Intersection(t2,t1), true) \
  E(3, l[0]==l[2], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,0) L(6,1) L(7,0) L(8,3), Truth_Induction(t1,t2), true) \
  E(4, l[0]==l[2], S(0,'^') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,0) L(6,1) L(7,0) L(8,3), Truth_Comparison(t1,t2), true) \
  E(5, l[0]==l[2], S(0,';') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,0) L(6,1) L(7,0) L(8,3), Truth_Intersection(t1,t2), true) \
  E(6, l[1]==l[3], S(0,'?') S(1,':') S(2,'!') L(3,0) L(4,3) S(5,':') S(6,'@') L(11,2) L(12,3), Truth_Induction(t2,t1), true) \
  E(7, l[1]==l[3], S(0,'^') S(1,':') S(2,'!') L(3,0) L(4,3) S(5,':') S(6,'@') L(11,2) L(12,3), Truth_Comparison(t2,t1), true) \
  E(8, l[1]==l[3], S(0,';') S(1,':') S(2,'!') L(3,0) L(4,3) S(5,':') S(6,'@') L(11,2) L(12,3), Truth_Intersection(t2,t1), true) \
  E(9, l[1]==l[3], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,0) L(6,1) L(7,2) L(8,1), Truth_Induction(t1,t2), true) \
  E(10, l[1]==l[3], S(0,'^') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,0) L(6,1) L(7,2) L(8,1), Truth_Comparison(t1,t2), true) \
  E(11, l[1]==l[3], S(0,';') S(1,'!') S(2,':') S(3,':') S(4,'@') L(5,0) L(6,1) L(7,2) L(8,1), Truth_Intersection(t1,t2), true) \

#endif
#if CASE == 76
#define NL 3
#define NE 2
#define DOUBLE true
#define TERM1 S(0,'?') S(1,':') S(2,':') V(3,"$1") L(4,0) V(5,"$1") L(6,1)
#define TERM2 L(0,2)
#define EXPECTS \
  E(0, true, S(0,';') L(1,2) S(2,'?') S(5,':') S(6,':') V(11,"$1") L(12,0) V(13,"$1") L(14,1), Truth_Intersection(t1,t2), true) \
  E(1, true, S(0,'?') S(1,';') S(2,':') L(3,2) S(4,':') V(5,"$1") L(6,1) V(9,"$1") L(10,0), Truth_Induction(t1,t2), true) \

#endif
#if CASE == 77
#define NL 3
#define NE 2
#define DOUBLE true
#define TERM1 L(0,0)
#define TERM2 S(0,'?') S(1,':') S(2,':') V(3,"$1") L(4,1) V(5,"$1") L(6,2)
#define EXPECTS \
  E(0, true, S(0,';') L(1,0) S(2,'?') S(5,':') S(6,':') V(11,"$1") L(12,1) V(13,"$1") L(14,2), Truth_Intersection(t2,t1), true) \
  E(1, true, S(0,'?') S(1,';') S(2,':') L(3,0) S(4,':') V(5,"$1") L(6,2) V(9,"$1") L(10,1), Truth_Induction(t2,t1), true) \

#endif
#if CASE == 78
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 S(0,';') S(1,':') S(2,':') V(3,"#1") L(4,0) V(5,"#1") L(6,1)
#define TERM2 L(0,2)
#define EXPECTS \
  E(0, true, S(0,'?') L(1,2) S(2,';') S(5,':') S(6,':') V(11,"#1") L(12,0) V(13,"#1") L(14,1), Truth_Induction(t1,t2), true) \

#endif
#if CASE == 79
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 L(0,0)
#define TERM2 S(0,';') S(1,':') S(2,':') V(3,"#1") L(4,1) V(5,"#1") L(6,2)
#define EXPECTS \
  E(0, true, S(0,'?') L(1,0) S(2,';') S(5,':') S(6,':') V(11,"#1") L(12,1) V(13,"#1") L(14,2), Truth_Induction(t2,t1), true) \

#endif
#if CASE == 80
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 S(0,'?') L(1,0) L(2,1)
#define TERM2 L(0,2)
#define EXPECTS \
  E(0, true, S(0,'?') S(1,';') L(2,1) L(3,2) L(4,0), Truth_Induction(t1,t2), true) \

#endif
#if CASE == 81
#define NL 3
#define NE 1
#define DOUBLE true
#define TERM1 L(0,0)
#define TERM2 S(0,'?') L(1,1) L(2,2)
#define EXPECTS \
  E(0, true, S(0,'?') S(1,';') L(2,2) L(3,0) L(4,1), Truth_Induction(t2,t1), true) \

#endif
#if CASE == 82
#define NL 6
#define NE 14
#define DOUBLE true
#define TERM1 S(0,'!') S(1,':') S(2,'@') S(3,'*') L(4,2) L(7,0) L(8,1)
#define TERM2 S(0,':') S(1,'*') L(2,5) L(3,3) L(4,4)
#define EXPECTS \
  E(0, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,':') S(2,'!') S(3,'*') L(4,5) S(5,':') S(6,'@') L(7,0) L(8,1) S(11,'*') L(12,2) L(23,0) L(24,1), Truth_Induction(t1,t2), true) \
  E(1, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,':') S(2,'!') S(3,'*') L(4,5) S(5,':') S(6,'@') L(7,0) L(8,1) S(11,'*') L(12,2) L(23,0) L(24,1), Truth_Comparison(t1,t2), true) \
  E(2, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,':') S(2,'!') S(3,'*') L(4,5) S(5,':') S(6,'@') L(7,0) L(8,1) S(11,'*') L(12,2) L(23,0) L(24,1), Truth_Intersection(t1,t2), true) \
  E(3, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,5) S(7,'*') L(8,2) L(11,3) L(12,4) L(15,3) L(16,4), Truth_Induction(t2,t1), true) \
  E(4, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,5) S(7,'*') L(8,2) L(11,3) L(12,4) L(15,3) L(16,4), Truth_Comparison(t2,t1), true) \
  E(5, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,5) S(7,'*') L(8,2) L(11,3) L(12,4) L(15,3) L(16,4), Truth_Intersection(t2,t1), true) \
  E(6, l[2]==l[5], S(0,'?') S(1,':') S(2,'!') S(3,'*') L(4,2) S(5,':') S(6,'@') L(7,3) L(8,4) S(11,'*') L(12,2) L(23,0) L(24,1), Truth_Induction(t1,t2), true) \
  E(7, l[2]==l[5], S(0,'^') S(1,':') S(2,'!') S(3,'*') L(4,2) S(5,':') S(6,'@') L(7,3) L(8,4) S(11,'*') L(12,2) L(23,0) L(24,1), Truth_Comparison(t1,t2), true) \
  E(8, l[2]==l[5], S(0,';') S(1,':') S(2,'!') S(3,'*') L(4,2) S(5,':') S(6,'@') L(7,3) L(8,4) S(11,'*') L(12,2) L(23,0) L(24,1), Truth_Intersection(t1,t2), true) \
  E(9, l[2]==l[5], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,5) S(7,'*') L(8,5) L(11,3) L(12,4) L(15,0) L(16,1), Truth_Induction(t2,t1), true) \
  E(10, l[2]==l[5], S(0,'^') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,5) S(7,'*') L(8,5) L(11,3) L(12,4) L(15,0) L(16,1), Truth_Comparison(t2,t1), true) \
  E(11, l[2]==l[5], S(0,';') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,5) S(7,'*') L(8,5) L(11,3) L(12,4) L(15,0) L(16,1), Truth_Intersection(t2,t1), true) \
  E(12, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,':') S(2,'!') S(3,'*') L(4,5) S(5,':') S(6,'@') L(7,1) L(8,0) S(11,'*') L(12,2) L(23,0) L(24,1), Truth_Induction(t1,t2), true) \
  E(13, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,5) S(7,'*') L(8,2) L(11,3) L(12,4) L(15,4) L(16,3), Truth_Induction(t2,t1), true) \

#endif
#if CASE == 83
#define NL 6
#define NE 14
#define DOUBLE true
#define TERM1 S(0,':') S(1,'*') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,'!') S(1,':') S(2,'@') S(3,'*') L(4,5) L(7,3) L(8,4)
#define EXPECTS \
  E(0, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,':') S(2,'!') S(3,'*') L(4,2) S(5,':') S(6,'@') L(7,3) L(8,4) S(11,'*') L(12,5) L(23,3) L(24,4), Truth_Induction(t2,t1), true) \
  E(1, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,':') S(2,'!') S(3,'*') L(4,2) S(5,':') S(6,'@') L(7,3) L(8,4) S(11,'*') L(12,5) L(23,3) L(24,4), Truth_Comparison(t2,t1), true) \
  E(2, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,':') S(2,'!') S(3,'*') L(4,2) S(5,':') S(6,'@') L(7,3) L(8,4) S(11,'*') L(12,5) L(23,3) L(24,4), Truth_Intersection(t2,t1), true) \
  E(3, l[0]==l[3] && l[1]==l[4], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,2) S(7,'*') L(8,5) L(11,0) L(12,1) L(15,0) L(16,1), Truth_Induction(t1,t2), true) \
  E(4, l[0]==l[3] && l[1]==l[4], S(0,'^') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,2) S(7,'*') L(8,5) L(11,0) L(12,1) L(15,0) L(16,1), Truth_Comparison(t1,t2), true) \
  E(5, l[0]==l[3] && l[1]==l[4], S(0,';') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,2) S(7,'*') L(8,5) L(11,0) L(12,1) L(15,0) L(16,1), Truth_Intersection(t1,t2), true) \
  E(6, l[2]==l[5], S(0,'?') S(1,':') S(2,'!') S(3,'*') L(4,5) S(5,':') S(6,'@') L(7,0) L(8,1) S(11,'*') L(12,5) L(23,3) L(24,4), Truth_Induction(t2,t1), true) \
  E(7, l[2]==l[5], S(0,'^') S(1,':') S(2,'!') S(3,'*') L(4,5) S(5,':') S(6,'@') L(7,0) L(8,1) S(11,'*') L(12,5) L(23,3) L(24,4), Truth_Comparison(t2,t1), true) \
  E(8, l[2]==l[5], S(0,';') S(1,':') S(2,'!') S(3,'*') L(4,5) S(5,':') S(6,'@') L(7,0) L(8,1) S(11,'*') L(12,5) L(23,3) L(24,4), Truth_Intersection(t2,t1), true) \
  E(9, l[2]==l[5], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,2) S(7,'*') L(8,2) L(11,0) L(12,1) L(15,3) L(16,4), Truth_Induction(t1,t2), true) \
  E(10, l[2]==l[5], S(0,'^') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,2) S(7,'*') L(8,2) L(11,0) L(12,1) L(15,3) L(16,4), Truth_Comparison(t1,t2), true) \
  E(11, l[2]==l[5], S(0,';') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,2) S(7,'*') L(8,2) L(11,0) L(12,1) L(15,3) L(16,4), Truth_Intersection(t1,t2), true) \
  E(12, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,':') S(2,'!') S(3,'*') L(4,2) S(5,':') S(6,'@') L(7,4) L(8,3) S(11,'*') L(12,5) L(23,3) L(24,4), Truth_Induction(t2,t1), true) \
  E(13, l[0]==l[4] && l[1]==l[3], S(0,'?') S(1,'!') S(2,':') S(3,':') S(4,'@') S(5,'*') L(6,2) S(7,'*') L(8,5) L(11,0) L(12,1) L(15,1) L(16,0), Truth_Induction(t1,t2), true) \

#endif
#if CASE == 84
#define NL 9
#define NE 2
#define DOUBLE true
#define TERM1 S(0,':') S(1,'*') L(2,2) L(3,0) L(4,1)
#define TERM2 S(0,';') S(1,':') S(2,':') S(3,'*') L(4,5) S(5,'*') L(6,8) L(7,3) L(8,4) L(11,6) L(12,7)
#define EXPECTS \
  E(0, l[0]==l[3] && l[1]==l[4] && l[2]==l[5], S(0,':') S(1,'*') L(2,8) L(3,6) L(4,7), Truth_DecomposePNN(t1,t2), false) \
  E(1, l[0]==l[3] && l[1]==l[7] && l[4]==l[6], S(0,'?') S(1,';') S(2,':') S(3,':') S(4,':') S(5,'*') L(6,2) S(7,'*') L(8,5) S(9,'*') L(10,8) L(11,0) L(12,1) L(15,0) L(16,4) L(19,4) L(20,1), Truth_Induction(t1,t2), true) \

#endif
#if CASE == 85
#define NL 9
#define NE 2
#define DOUBLE true
#define TERM1 S(0,';') S(1,':') S(2,':') S(3,'*') L(4,2) S(5,'*') L(6,5) L(7,0) L(8,1) L(11,3) L(12,4)
#define TERM2 S(0,':') S(1,'*') L(2,8) L(3,6) L(4,7)
#define EXPECTS \
  E(0, l[0]==l[6] && l[1]==l[7] && l[2]==l[8], S(0,':') S(1,'*') L(2,5) L(3,3) L(4,4), Truth_DecomposePNN(t2,t1), false) \
  E(1, l[0]==l[6] && l[1]==l[3] && l[4]==l[7], S(0,'?') S(1,';') S(2,':') S(3,':') S(4,':') S(5,'*') L(6,8) S(7,'*') L(8,2) S(9,'*') L(10,5) L(11,6) L(12,7) L(15,6) L(16,1) L(19,1) L(20,7), Truth_Induction(t2,t1), true) \

#endif
