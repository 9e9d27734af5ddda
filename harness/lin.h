/* Linearizability of a recorded history against a sequential specification.
   The harness defines NOPS, NT, opsOf(t), baseOf(t), t_inv[], t_res[] and
   int lin_try(const int *perm): 1 iff executing the operations in this order gives the recorded results. */
static int lin_perm[NOPS + 1]; static int lin_found; static unsigned char lin_before[NOPS + 1][NOPS + 1];
static int lin_order_ok(void) {
    int i, j, ok = 1;
    for (i = 0; i < NOPS; i++) for (j = i + 1; j < NOPS; j++) ok &= !lin_before[lin_perm[j]][lin_perm[i]];
    return ok;
}
static void lin_leaf(void) { int ok = lin_order_ok(); ok &= lin_try(lin_perm); lin_found |= ok; }
static void lin_rec(int n, const int *nxt) {
    int t, i, my[NT];
    if (n == NOPS) { lin_leaf(); return; }
    for (t = 0; t < NT; t++) {
        if (nxt[t] == opsOf(t)) continue;
        for (i = 0; i < NT; i++) my[i] = nxt[i];
        lin_perm[n] = baseOf(t) + nxt[t]; my[t]++;
        lin_rec(n + 1, my);
    }
}
static int linearizable(void) {
    int i, j, z[NT];
    for (i = 0; i < NT; i++) z[i] = 0;
    for (i = 0; i < NOPS; i++) for (j = 0; j < NOPS; j++) lin_before[i][j] = t_res[i] < t_inv[j];
    lin_found = 0; lin_rec(0, z);
    return lin_found;
}
