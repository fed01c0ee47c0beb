/* Emptiness of a conjunction of integer linear constraints (equality elimination, then Fourier-Motzkin with
 * integer tightening): the same procedure as terms.infeasible, in C.  Returns True only if it is empty; None if a
 * number does not fit, in which case the caller falls back to the Python version. */
#include <Python.h>
#include <stdint.h>
#include <string.h>
typedef __int128 W;
typedef unsigned __int128 UW;
static PyObject *s_t, *s_c;

static int get(PyObject *o, W *r) {
    int ov;
    long long v = PyLong_AsLongLongAndOverflow(o, &ov);
    if (!ov) {
        if (v == -1 && PyErr_Occurred()) { PyErr_Clear(); return 0; }
        *r = v;
        return 1;
    }
    unsigned char b[16];
    if (_PyLong_AsByteArray((PyLongObject *)o, b, 16, 1, 1) < 0) { PyErr_Clear(); return 0; }
    UW u = 0;
    for (int i = 15; i >= 0; i--) u = (u << 8) | b[i];
    *r = (W)u;
    return 1;
}
static W gcdw(W a, W b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) {
        if (!(a >> 63) && !(b >> 63)) {
            uint64_t x = (uint64_t)a, y = (uint64_t)b;
            while (y) { uint64_t t = x % y; x = y; y = t; }
            return x;
        }
        W t = a % b; a = b; b = t;
    }
    return a;
}
static W floordiv(W a, W b) { W q = a / b; if (a % b && (a < 0) != (b < 0)) q--; return q; }
#define BIG (((W)1) << 120)


/* rows are W[n+1]; element n is the constant */
typedef struct { int n, cap; W *v; } Rows;
static int push(Rows *r, int w) {
    if (r->n == r->cap) {
        int c = r->cap ? r->cap * 2 : 64;
        W *v = realloc(r->v, sizeof(W) * (size_t)c * w);
        if (!v) return 0;
        r->v = v; r->cap = c;
    }
    return 1;
}
static uint64_t hashrow(const W *x, int n, int neg) {
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < n; i++) {
        W v = neg ? -x[i] : x[i];
        h = (h ^ (uint64_t)v) * 1099511628211ull;
        h ^= h >> 29;
    }
    return h;
}
typedef struct { int *ix; int size; } Tab;
static int find(Tab *t, Rows *r, int n, const W *x, int neg, uint64_t h, int *slot) {
    int w = n + 1;
    for (uint64_t i = h & (t->size - 1);; i = (i + 1) & (t->size - 1)) {
        int k = t->ix[i];
        if (k < 0) { if (slot) *slot = (int)i; return -1; }
        const W *y = r->v + (size_t)k * w;
        int same = 1;
        for (int j = 0; j < n; j++) if (y[j] != (neg ? -x[j] : x[j])) { same = 0; break; }
        if (same) return k;
    }
}
static int grow(Tab *t, Rows *r, int n) {
    int s = t->size ? t->size * 2 : 256;
    int *ix = malloc(sizeof(int) * s);
    if (!ix) return 0;
    for (int i = 0; i < s; i++) ix[i] = -1;
    free(t->ix); t->ix = ix; t->size = s;
    for (int k = 0; k < r->n; k++) {
        int slot;
        W *y = r->v + (size_t)k * (n + 1);
        find(t, r, n, y, 0, hashrow(y, n, 0), &slot);
        t->ix[slot] = k;
    }
    return 1;
}
/* 1: contradiction, 0: fine, -1: failure */
static int add(Rows *r, Tab *t, int n, W *x) {
    W g = 0;
    for (int i = 0; i < n; i++) if (x[i]) g = gcdw(g, x[i]);
    if (!g) return x[n] < 0;
    if (g > 1) { for (int i = 0; i < n; i++) x[i] /= g; x[n] = floordiv(x[n], g); }
    if (!t->size || r->n * 2 >= t->size) if (!grow(t, r, n)) return -1;
    int slot, k = find(t, r, n, x, 0, hashrow(x, n, 0), &slot);
    if (k >= 0) {
        W *y = r->v + (size_t)k * (n + 1);
        if (x[n] >= y[n]) return 0;
        y[n] = x[n];
    } else {
        if (!push(r, n + 1)) return -1;
        memcpy(r->v + (size_t)r->n * (n + 1), x, sizeof(W) * (n + 1));
        t->ix[slot] = r->n++;
    }
    k = find(t, r, n, x, 1, hashrow(x, n, 1), NULL);
    if (k >= 0 && r->v[(size_t)k * (n + 1) + n] + x[n] < 0) return 1;
    return 0;
}

static PyObject *infeasible(PyObject *self, PyObject *args) {
    PyObject *G, *E, *LO, *HI;
    int cap;
    if (!PyArg_ParseTuple(args, "OOOOi", &G, &E, &LO, &HI, &cap)) return NULL;
    int res = -1;      /* -1: fallback */
    int n = 0, acap = 64;
    long *atoms = malloc(sizeof(long) * acap);
    PyObject **objs = malloc(sizeof(PyObject *) * acap);
    Py_ssize_t ng = PyList_GET_SIZE(G), ne = PyList_GET_SIZE(E);
    /* collect the atoms */
    int tsz = 1024; int *map = malloc(sizeof(int) * tsz); long *mapk = malloc(sizeof(long) * tsz);
    for (int i = 0; i < tsz; i++) map[i] = -1;
    Rows ge = {0}, eq = {0}, cs = {0}, nx = {0};
    Tab t1 = {0}, t2 = {0};
    W *tmp = NULL;
    for (int pass = 0; pass < 2; pass++) {
        int w = n + 1;
        for (Py_ssize_t q = 0; q < ng + ne; q++) {
            PyObject *l = q < ng ? PyList_GET_ITEM(G, q) : PyList_GET_ITEM(E, q - ng);
            PyObject *t = PyObject_GetAttr(l, s_t);
            if (!t) { PyErr_Clear(); goto out; }
            Py_DECREF(t);
            Rows *r = q < ng ? &ge : &eq;
            W *row = NULL;
            if (pass) {
                if (!push(r, w)) goto out;
                row = r->v + (size_t)r->n * w;
                memset(row, 0, sizeof(W) * w);
                r->n++;
                PyObject *c = PyObject_GetAttr(l, s_c);
                if (!c) { PyErr_Clear(); goto out; }
                Py_DECREF(c);
                if (!get(c, &row[n])) goto out;
                if (row[n] > BIG || row[n] < -BIG) goto out;
            }
            Py_ssize_t k = PyTuple_GET_SIZE(t);
            for (Py_ssize_t j = 0; j < k; j++) {
                PyObject *p = PyTuple_GET_ITEM(t, j);
                long a = PyLong_AsLong(PyTuple_GET_ITEM(p, 0));
                unsigned long h = ((unsigned long)a * 2654435761ul) & (tsz - 1);
                while (map[h] >= 0 && mapk[h] != a) h = (h + 1) & (tsz - 1);
                if (!pass) {
                    if (map[h] < 0) {
                        if (n >= 400) goto out;
                        if (n == acap) { acap *= 2; atoms = realloc(atoms, sizeof(long) * acap); objs = realloc(objs, sizeof(PyObject *) * acap); }
                        map[h] = n; mapk[h] = a; atoms[n] = a; objs[n] = PyTuple_GET_ITEM(p, 0); n++;
                    }
                } else {
                    W v;
                    if (!get(PyTuple_GET_ITEM(p, 1), &v)) goto out;
                    if (v > BIG || v < -BIG) goto out;
                    row[map[h]] += v;
                }
            }
        }
        if (!n) {
            /* constants only */
            if (pass) {
                res = 0;
                for (int i = 0; i < ge.n; i++) if (ge.v[i] < 0) res = 1;
                for (int i = 0; i < eq.n; i++) if (eq.v[i] != 0) res = 1;
                goto out;
            }
        }
    }
    int w = n + 1;
    for (int i = 0; i < n; i++) {
        PyObject *l = PyDict_GetItem(LO, objs[i]), *h = PyDict_GetItem(HI, objs[i]);
        W lv, hv;
        int hl = l && l != Py_None, hh = h && h != Py_None;
        if (hl && (!get(l, &lv) || lv > BIG || lv < -BIG)) goto out;
        if (hh && (!get(h, &hv) || hv > BIG || hv < -BIG)) goto out;
        if (hl && hh && lv == hv) {
            if (!push(&eq, w)) goto out;
            W *row = eq.v + (size_t)eq.n++ * w;
            memset(row, 0, sizeof(W) * w); row[i] = 1; row[n] = -lv;
            continue;
        }
        if (hl) { if (!push(&ge, w)) goto out; W *row = ge.v + (size_t)ge.n++ * w; memset(row, 0, sizeof(W) * w); row[i] = 1; row[n] = -lv; }
        if (hh) { if (!push(&ge, w)) goto out; W *row = ge.v + (size_t)ge.n++ * w; memset(row, 0, sizeof(W) * w); row[i] = -1; row[n] = hv; }
    }
    tmp = malloc(sizeof(W) * w);
    /* eliminate equalities */
    while (eq.n) {
        W *e = tmp;
        memcpy(e, eq.v + (size_t)(--eq.n) * w, sizeof(W) * w);
        W g = 0;
        for (int i = 0; i < n; i++) if (e[i]) g = gcdw(g, e[i]);
        if (!g) { if (e[n]) { res = 1; goto out; } continue; }
        if (e[n] % g) { res = 1; goto out; }
        if (g > 1) for (int i = 0; i <= n; i++) e[i] /= g;
        int p = -1; W best = 0;
        for (int i = 0; i < n; i++) if (e[i]) {
            W a = e[i] < 0 ? -e[i] : e[i];
            if (p < 0 || a < best) { p = i; best = a; }
        }
        W ek = e[p], m = ek < 0 ? -ek : ek;
        for (int z = 0; z < 2; z++) {
            Rows *r = z ? &eq : &ge;
            for (int k = 0; k < r->n; k++) {
                W *d = r->v + (size_t)k * w;
                W x = d[p];
                if (!x) continue;
                W s = ek > 0 ? x : -x;
                for (int i = 0; i <= n; i++) {
                    W a, b, c;
                    if (__builtin_mul_overflow(d[i], m, &a) || __builtin_mul_overflow(s, e[i], &b) || __builtin_sub_overflow(a, b, &c) || c > BIG || c < -BIG) goto out;
                    d[i] = c;
                }
            }
        }
    }
    /* compact the columns */
    {
        int *keep = malloc(sizeof(int) * (n + 1)), m = 0;
        for (int i = 0; i < n; i++) {
            int used = 0;
            for (int k = 0; k < ge.n && !used; k++) if (ge.v[(size_t)k * w + i]) used = 1;
            if (used) keep[m++] = i;
        }
        keep[m] = n;
        W *x = malloc(sizeof(W) * (m + 1));
        for (int k = 0; k < ge.n; k++) {
            for (int i = 0; i <= m; i++) x[i] = ge.v[(size_t)k * w + keep[i]];
            int a = add(&cs, &t1, m, x);
            if (a) { res = a; free(x); free(keep); goto out; }
        }
        free(x); free(keep);
        n = m; w = m + 1;
    }
    W *x = realloc(tmp, sizeof(W) * (w + 1));
    tmp = x;
    int *pc = malloc(sizeof(int) * (n + 1) * 2), *nc = pc + n + 1;
    while (cs.n) {
        memset(pc, 0, sizeof(int) * (n + 1) * 2);
        for (int k = 0; k < cs.n; k++) {
            W *d = cs.v + (size_t)k * w;
            for (int i = 0; i < n; i++) { if (d[i] > 0) pc[i]++; else if (d[i] < 0) nc[i]++; }
        }
        int best = -1; long bc = 0;
        for (int i = 0; i < n; i++) if (pc[i] || nc[i]) {
            long c = (long)pc[i] * nc[i] - pc[i] - nc[i];
            if (best < 0 || c < bc) { best = i; bc = c; }
        }
        if (best < 0) break;
        if ((long)pc[best] * nc[best] > 400000) { res = 0; free(pc); goto out; }
        nx.n = 0;
        if (t2.size) for (int i = 0; i < t2.size; i++) t2.ix[i] = -1;
        int bad = 0;
        for (int k = 0; k < cs.n && !bad; k++) {
            W *d = cs.v + (size_t)k * w;
            if (d[best]) continue;
            memcpy(x, d, sizeof(W) * w);
            bad = add(&nx, &t2, n, x);
        }
        for (int a = 0; a < cs.n && !bad; a++) {
            W *d1 = cs.v + (size_t)a * w;
            if (d1[best] <= 0) continue;
            for (int b = 0; b < cs.n && !bad; b++) {
                W *d2 = cs.v + (size_t)b * w;
                if (d2[best] >= 0) continue;
                W v1 = d1[best], v2 = -d2[best], g = gcdw(v1, v2), m1 = v2 / g, m2 = v1 / g;
                for (int i = 0; i <= n; i++) {
                    W p, q, r;
                    if (__builtin_mul_overflow(d1[i], m1, &p) || __builtin_mul_overflow(d2[i], m2, &q) || __builtin_add_overflow(p, q, &r) || r > BIG || r < -BIG) { free(pc); goto out; }
                    x[i] = r;
                }
                bad = add(&nx, &t2, n, x);
            }
        }
        if (bad) { res = bad; free(pc); goto out; }
        Rows tr = cs; cs = nx; nx = tr;
        Tab tt = t1; t1 = t2; t2 = tt;
        if (cs.n > cap) break;
    }
    free(pc);
    res = 0;
out:
    free(atoms); free(objs); free(map); free(mapk); free(ge.v); free(eq.v); free(cs.v); free(nx.v); free(t1.ix); free(t2.ix); free(tmp);
    if (res < 0) Py_RETURN_NONE;
    return PyBool_FromLong(res);
}

/* terms.propagate on the given rows; lo and hi are updated. */
static PyObject *propagate(PyObject *self, PyObject *args) {
    PyObject *G, *LO, *HI;
    int rounds, res = -1;
    if (!PyArg_ParseTuple(args, "OOOi", &G, &LO, &HI, &rounds)) return NULL;
    Py_ssize_t ng = PyList_GET_SIZE(G), tot = 0;
    for (Py_ssize_t q = 0; q < ng; q++) {
        PyObject *t = PyObject_GetAttr(PyList_GET_ITEM(G, q), s_t);
        if (!t) { PyErr_Clear(); Py_RETURN_NONE; }
        tot += PyTuple_GET_SIZE(t);
        Py_DECREF(t);
    }
    int *at = malloc(sizeof(int) * (tot + 1)), *st = malloc(sizeof(int) * (ng + 1));
    W *co = malloc(sizeof(W) * (tot + 1)), *cc = malloc(sizeof(W) * (ng + 1));
    W *lo = malloc(sizeof(W) * (tot + 1)), *hi = malloc(sizeof(W) * (tot + 1));
    char *hl = malloc(tot + 1), *hh = malloc(tot + 1), *ch = calloc(tot + 1, 1);
    PyObject **ob = malloc(sizeof(PyObject *) * (tot + 1));
    int tsz = 256;
    while (tsz < 4 * tot) tsz *= 2;
    int *map = malloc(sizeof(int) * tsz); long *mk = malloc(sizeof(long) * tsz);
    for (int i = 0; i < tsz; i++) map[i] = -1;
    int n = 0, k = 0;
    for (Py_ssize_t q = 0; q < ng; q++) {
        PyObject *l = PyList_GET_ITEM(G, q), *t = PyObject_GetAttr(l, s_t), *c = PyObject_GetAttr(l, s_c);
        if (!t || !c) { PyErr_Clear(); goto out; }
        Py_DECREF(t); Py_DECREF(c);
        if (!get(c, &cc[q]) || cc[q] > BIG || cc[q] < -BIG) goto out;
        st[q] = k;
        Py_ssize_t m = PyTuple_GET_SIZE(t);
        for (Py_ssize_t j = 0; j < m; j++) {
            PyObject *p = PyTuple_GET_ITEM(t, j), *ao = PyTuple_GET_ITEM(p, 0);
            long a = PyLong_AsLong(ao);
            if (!get(PyTuple_GET_ITEM(p, 1), &co[k]) || co[k] > BIG || co[k] < -BIG) goto out;
            unsigned long h = ((unsigned long)a * 2654435761ul) & (tsz - 1);
            while (map[h] >= 0 && mk[h] != a) h = (h + 1) & (tsz - 1);
            if (map[h] < 0) {
                map[h] = n; mk[h] = a; ob[n] = ao;
                PyObject *x = PyDict_GetItem(LO, ao), *y = PyDict_GetItem(HI, ao);
                hl[n] = x && x != Py_None; hh[n] = y && y != Py_None;
                if (hl[n] && (!get(x, &lo[n]) || lo[n] > BIG || lo[n] < -BIG)) goto out;
                if (hh[n] && (!get(y, &hi[n]) || hi[n] > BIG || hi[n] < -BIG)) goto out;
                n++;
            }
            at[k++] = map[h];
        }
    }
    st[ng] = k;
    res = 0;
    for (int r = 0; r < rounds && !res; r++) {
        int changed = 0;
        for (Py_ssize_t q = 0; q < ng && !res; q++) {
            W up = cc[q];
            int free_ = -1, bad = 0;
            for (int j = st[q]; j < st[q + 1]; j++) {
                int a = at[j];
                if (co[j] > 0 ? !hh[a] : !hl[a]) {
                    if (free_ >= 0) { bad = 1; break; }
                    free_ = a;
                } else {
                    W v;
                    if (__builtin_mul_overflow(co[j], co[j] > 0 ? hi[a] : lo[a], &v) || __builtin_add_overflow(up, v, &up)) { res = -1; goto out; }
                }
            }
            if (bad) continue;
            for (int j = st[q]; j < st[q + 1] && !res; j++) {
                int a = at[j];
                if (free_ >= 0 && a != free_) continue;
                W kk = co[j], rest = up, v;
                if (free_ < 0) {
                    if (__builtin_mul_overflow(kk, kk > 0 ? hi[a] : lo[a], &v) || __builtin_sub_overflow(up, v, &rest)) { res = -1; goto out; }
                }
                if (kk > 0) {
                    W m = -floordiv(rest, kk);
                    if (!hl[a] || m > lo[a]) { lo[a] = m; hl[a] = 1; ch[a] |= 1; changed = 1; }
                } else {
                    W m = floordiv(rest, -kk);
                    if (!hh[a] || m < hi[a]) { hi[a] = m; hh[a] = 1; ch[a] |= 2; changed = 1; }
                }
                if (hl[a] && hh[a] && lo[a] > hi[a]) res = 1;
            }
        }
        if (!changed) break;
    }
    if (!res)
        for (int a = 0; a < n; a++)
            for (int z = 0; z < 2; z++)
                if (ch[a] & (1 << z)) {
                    W v = z ? hi[a] : lo[a];
                    PyObject *o;
                    if (v <= INT64_MAX && v >= INT64_MIN) o = PyLong_FromLongLong((long long)v);
                    else {
                        unsigned char b[16];
                        UW u = (UW)v;
                        for (int i = 0; i < 16; i++) { b[i] = (unsigned char)u; u >>= 8; }
                        o = _PyLong_FromByteArray(b, 16, 1, 1);
                    }
                    if (!o) { PyErr_Clear(); continue; }
                    PyDict_SetItem(z ? HI : LO, ob[a], o);
                    Py_DECREF(o);
                }
out:
    free(at); free(st); free(co); free(cc); free(lo); free(hi); free(hl); free(hh); free(ch); free(ob); free(map); free(mk);
    if (res < 0) Py_RETURN_NONE;
    return PyBool_FromLong(res);
}

/* The constraints connected with a set of atoms, in the order terms.Facts._component finds them, and the bounds of their atoms. */
static int spread(PyObject *idx, PyObject *todo, char *mark) {
    PyObject *it = PyObject_GetIter(todo), *a;
    if (!it) return -1;
    while ((a = PyIter_Next(it))) {
        PyObject *l = PyDict_GetItem(idx, a);
        if (l)
            for (Py_ssize_t i = 0; i < PyList_GET_SIZE(l); i++) {
                long k = PyLong_AsLong(PyList_GET_ITEM(l, i));
                if (!mark[k]) mark[k] = 1;
            }
        Py_DECREF(a);
    }
    Py_DECREF(it);
    return 0;
}

static int touch(PyObject *l, PyObject *set) {
    PyObject *t = PyObject_GetAttr(l, s_t);
    if (!t) return -1;
    for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(t); i++)
        if (PySet_Add(set, PyTuple_GET_ITEM(PyTuple_GET_ITEM(t, i), 0))) { Py_DECREF(t); return -1; }
    Py_DECREF(t);
    return 0;
}

static PyObject *bound(PyObject *d, PyObject *base, PyObject *a, int op) {
    PyObject *x = PyDict_GetItem(d, a), *y = PyList_GET_ITEM(base, PyLong_AsLong(a));
    if (!x || x == Py_None) return y;
    if (y == Py_None) return x;
    return PyObject_RichCompareBool(y, x, op) == 1 ? y : x;
}

static PyObject *component(PyObject *self, PyObject *args) {
    PyObject *atoms, *defs, *alo, *ahi, *ges, *eqs, *ig, *ie, *blo, *bhi;
    if (!PyArg_ParseTuple(args, "OOOOOOOOOO", &atoms, &defs, &alo, &ahi, &ges, &eqs, &ig, &ie, &blo, &bhi)) return NULL;
    if (!PyTuple_Check(ges) || !PyTuple_Check(eqs) || !PyList_Check(defs)) { PyErr_SetString(PyExc_TypeError, "component"); return NULL; }
    Py_ssize_t ng = PyTuple_GET_SIZE(ges), ne = PyTuple_GET_SIZE(eqs);
    char *mg = calloc(ng + 1, 1), *me = calloc(ne + 1, 1);
    PyObject *todo = PySet_New(atoms), *seen = PySet_New(NULL), *og = PyList_New(0), *oe = PyList_New(0), *lo = PyDict_New(), *hi = PyDict_New(), *out = NULL;
    while (PySet_GET_SIZE(todo)) {
        PyObject *z = PyNumber_InPlaceOr(seen, todo);
        if (!z) goto done;
        Py_DECREF(z);
        PyObject *nw = PySet_New(NULL), *it = PyObject_GetIter(todo), *a;
        while ((a = PyIter_Next(it))) {
            PyObject *d = PyList_GET_ITEM(defs, PyLong_AsLong(a));
            for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(d); i++) {
                PyList_Append(og, PyTuple_GET_ITEM(d, i));
                touch(PyTuple_GET_ITEM(d, i), nw);
            }
            PyDict_SetItem(lo, a, bound(blo, alo, a, Py_GT));
            PyDict_SetItem(hi, a, bound(bhi, ahi, a, Py_LT));
            Py_DECREF(a);
        }
        Py_DECREF(it);
        spread(ig, todo, mg);
        spread(ie, todo, me);
        for (Py_ssize_t i = 0; i < ng; i++) if (mg[i] == 1) { mg[i] = 2; PyList_Append(og, PyTuple_GET_ITEM(ges, i)); touch(PyTuple_GET_ITEM(ges, i), nw); }
        for (Py_ssize_t i = 0; i < ne; i++) if (me[i] == 1) { me[i] = 2; PyList_Append(oe, PyTuple_GET_ITEM(eqs, i)); touch(PyTuple_GET_ITEM(eqs, i), nw); }
        Py_DECREF(todo);
        todo = PyNumber_Subtract(nw, seen);
        Py_DECREF(nw);
        if (!todo) { todo = PySet_New(NULL); goto done; }
    }
    if (!PyErr_Occurred()) out = PyTuple_Pack(5, og, oe, seen, lo, hi);
done:
    free(mg); free(me);
    Py_DECREF(todo); Py_DECREF(seen); Py_DECREF(og); Py_DECREF(oe); Py_DECREF(lo); Py_DECREF(hi);
    return out;
}

/* The rows worth propagating: those with a coefficient other than 1 and -1, equations both ways, and the bounds. */
static int plain(PyObject *l, Py_ssize_t *n) {
    PyObject *t = PyObject_GetAttr(l, s_t);
    if (!t) return -1;
    int r = 1;
    *n = PyTuple_GET_SIZE(t);
    for (Py_ssize_t i = 0; i < *n && r; i++) {
        int o = 0;
        long long k = PyLong_AsLongLongAndOverflow(PyTuple_GET_ITEM(PyTuple_GET_ITEM(t, i), 1), &o);
        if (o || (k != 1 && k != -1)) r = 0;
    }
    Py_DECREF(t);
    return r;
}

static PyObject *rows(PyObject *self, PyObject *args) {
    PyObject *ges, *eqs;
    Py_ssize_t n;
    if (!PyArg_ParseTuple(args, "OO", &ges, &eqs)) return NULL;
    PyObject *r = PyList_New(0);
    for (Py_ssize_t i = 0; i < PyList_GET_SIZE(ges); i++) {
        PyObject *l = PyList_GET_ITEM(ges, i);
        if (!plain(l, &n) && n) PyList_Append(r, l);
    }
    for (Py_ssize_t i = 0; i < PyList_GET_SIZE(eqs); i++) {
        PyObject *l = PyList_GET_ITEM(eqs, i);
        if (!plain(l, &n)) {
            PyObject *m = PyNumber_Negative(l);
            if (!m) { Py_DECREF(r); return NULL; }
            PyList_Append(r, l);
            PyList_Append(r, m);
            Py_DECREF(m);
        }
    }
    if (PyList_GET_SIZE(r))
        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(ges); i++) {
            PyObject *l = PyList_GET_ITEM(ges, i);
            plain(l, &n);
            if (n == 1) PyList_Append(r, l);
        }
    if (PyErr_Occurred()) { Py_DECREF(r); return NULL; }
    return r;
}

static PyMethodDef M[] = {{"component", component, METH_VARARGS, ""}, {"rows", rows, METH_VARARGS, ""}, {"infeasible", infeasible, METH_VARARGS, ""}, {"propagate", propagate, METH_VARARGS, ""}, {0}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "yvfm", NULL, -1, M};
PyMODINIT_FUNC PyInit_yvfm(void) {
    s_t = PyUnicode_InternFromString("t");
    s_c = PyUnicode_InternFromString("c");
    return PyModule_Create(&D);
}
