#pragma once
#include "expr.h"
// Rational-function normalisation and decision of conditions over Z/p (p prime, fixed per run)
extern Z g_fieldP;                 // 0: off
Node *fieldNorm(Node *cond);       // equivalent condition under the path condition
void fieldLearn(Node *cond);       // record cond as true on this path
int fieldSolve(Node *cond, Model *m, const std::vector<Node *> &pc, int tries); // 0 infeasible, 1 model found, 2 unknown
Node *fieldIte(Node *c, Node *a, Node *b);
