//@ prop C23
//@ srcs
//@ default flags="--max-field-sensitivity-array-size 256 --object-bits 14"
//@ job name=dl for=S:0..4/0..7 bound="a doubly linked list of S elements, then every single operation at every position, including joins with lists of 0..3 elements" D=S={S} unwind=16
//@ job name=sl for=S:0..4/0..7 bound="a singly linked list of S elements, then every single operation at every position" D=S={S} unwind=16
//@ job name=ll for=S:0..4/0..7 bound="a circular list of S elements, then every single operation at every position, including splices and cuts" D=S={S} unwind=16
//@ job name=hl for=S:0..4/0..7 bound="a hash chain of S elements, then every single operation at every position" D=S={S} unwind=16
#include "vh.h"
#include <string.h>
#include "fast/list.h"
#include "fast/llist.h"

#define MX 12
typedef struct node node;
struct node { int pad; DL_ENTRY(node) d; SL_ENTRY(node) s; list_head l; hlist_node h; };
DL_HEAD_TYPEDEF(dhead, node); SL_HEAD_TYPEDEF(shead, node);
static node E[MX], X[MX];
/* a list of elements: the reference */
typedef struct { int n; node *e[MX]; } ref;
static void rins(ref *r, int at, node *e) { for (int i = r->n; i > at; i--) r->e[i] = r->e[i-1]; r->e[at] = e; r->n++; }
static void rdel(ref *r, int at) { for (int i = at + 1; i < r->n; i++) r->e[i-1] = r->e[i]; r->n--; }

/* ------------------------------------------------------- doubly linked */
static void dcheck(dhead *h, ref *r)
{
    node *p; int k = 0;
    DL_FOREACH(h, p, d) { CHECK(k < r->n && p == r->e[k], "a forward walk visits the elements in order"); if (++k > r->n) break; }
    CHECK(k == r->n, "a forward walk visits every element"); k = r->n;
    DL_FOREACH_REVERSE(h, p, d) { CHECK(k > 0 && p == r->e[k-1], "a backward walk visits them in reverse"); if (--k < 0) break; }
    CHECK(k == 0, "a backward walk visits every element");
    CHECK(DL_EMPTY(h) == (r->n == 0) && DL_empty_p(h) == (r->n == 0), "emptiness agrees");
    CHECK(DL_FIRST(h) == (r->n ? r->e[0] : 0) && DL_LAST(h) == (r->n ? r->e[r->n-1] : 0), "head and tail agree");
}
static void dmk(dhead *h, ref *r, node *a, int n)
{
    DL_INIT(h); r->n = n;
    for (int i = 0; i < n; i++) { DL_INSERT_TAIL(h, &a[i], d); r->e[i] = &a[i]; }
}
static void dop(int c, int k)
{
    dhead h, g; ref r, q; node *e = &E[MX - 1];
    dmk(&h, &r, E, S); dcheck(&h, &r);
    switch (c) {
    case 0: DL_INSERT_HEAD(&h, e, d); rins(&r, 0, e); break;
    case 1: DL_APPEND(&h, e, d); rins(&r, r.n, e); break;
    case 2: { node *x = DL_REMOVE_HEAD(&h, d); CHECK(x == (S ? &E[0] : 0), "the first element is removed"); if (S) rdel(&r, 0); break; }
    case 3: { node *x = DL_REMOVE_TAIL(&h, d); CHECK(x == (S ? r.e[r.n-1] : 0), "the last element is removed"); if (S) rdel(&r, r.n - 1); break; }
    case 4: if (k >= S) return; DL_INSERT_AFTER(&h, &E[k], e, d); rins(&r, k + 1, e); break;
    case 5: if (k >= S) return; DL_INSERT_BEFORE(&h, &E[k], e, d); rins(&r, k, e); break;
    case 6: if (k >= S) return; DL_REMOVE(&h, &E[k], d); rdel(&r, k); break;
    case 7: case 8:
        if (k > 3) return;
        dmk(&g, &q, X, k);
        if (c == 7) { DL_APPEND_LIST(&h, &g, d); for (int i = 0; i < k; i++) rins(&r, r.n, &X[i]); }
        else { DL_PREPEND_LIST(&h, &g, d); for (int i = k - 1; i >= 0; i--) rins(&r, 0, &X[i]); }
        q.n = 0; dcheck(&g, &q);
        break;
    default: { dhead z = DL_HEAD_INITIALIZER(z); q.n = 0; dcheck(&z, &q); break; }
    }
    dcheck(&h, &r);
    REACH("dl");
}
void h_dl(void)
{
    unsigned c = nd_u8(), k = nd_u8();
    for (int i = 0; i < 10; i++) if (c == (unsigned)i)
        for (int j = 0; j < (S > 4 ? S : 4); j++) if (k == (unsigned)j) dop(i, j);
}

/* ------------------------------------------------------- singly linked */
static void scheck(shead *h, ref *r)
{
    node *p, *t; int k = 0;
    SL_FOREACH(p, h, s) { CHECK(k < r->n && p == r->e[k], "a walk visits the elements in order"); if (++k > r->n) break; }
    CHECK(k == r->n, "a walk visits every element"); k = 0;
    SL_FOREACH_SAFE(p, h, s, t) { CHECK(k < r->n && p == r->e[k], "a safe walk visits the elements in order"); if (++k > r->n) break; }
    CHECK(k == r->n, "a safe walk visits every element");
    CHECK(SL_EMPTY(h) == (r->n == 0) && SL_FIRST(h) == (r->n ? r->e[0] : 0), "emptiness and head agree");
}
static void sop(int c, int k)
{
    shead h; ref r; node *e = &E[MX - 1], *p, *t;
    SL_INIT(&h); r.n = 0;
    for (int i = S - 1; i >= 0; i--) { SL_INSERT_HEAD(&h, &E[i], s); rins(&r, 0, &E[i]); }
    scheck(&h, &r);
    switch (c) {
    case 0: SL_INSERT_HEAD(&h, e, s); rins(&r, 0, e); break;
    case 1: if (k >= S) return; SL_INSERT_AFTER(&h, &E[k], e, s); rins(&r, k + 1, e); break;
    case 2: if (!S) return; SL_REMOVE_HEAD(&h, s); rdel(&r, 0); break;
    default: { int n = 0;                                  /* free every element while walking */
        SL_FOREACH_SAFE(p, &h, s, t) { CHECK(p == r.e[n], "removal while iterating visits each element once"); n++; memset(p, 0xa5, sizeof *p); }
        CHECK(n == S, "removal while iterating visits every element"); return; }
    }
    scheck(&h, &r);
    REACH("sl");
}
void h_sl(void)
{
    unsigned c = nd_u8(), k = nd_u8();
    for (int i = 0; i < 4; i++) if (c == (unsigned)i)
        for (int j = 0; j < (S > 1 ? S : 1); j++) if (k == (unsigned)j) sop(i, j);
}

/* ------------------------------------------------------------ circular */
static void lcheck(list_head *h, ref *r)
{
    list_head *p, *t; node *x, *y; int k = 0;
    list_for_each(p, h) { CHECK(k < r->n && p == &r->e[k]->l, "a forward walk visits the elements in order"); if (++k > r->n) break; }
    CHECK(k == r->n, "a forward walk visits every element"); k = r->n;
    list_for_each_prev(p, h) { CHECK(k > 0 && p == &r->e[k-1]->l, "a backward walk visits them in reverse"); if (--k < 0) break; }
    CHECK(k == 0, "a backward walk visits every element");
    list_for_each_entry(x, h, l) { CHECK(k < r->n && x == r->e[k], "an entry walk visits the elements in order"); if (++k > r->n) break; }
    CHECK(k == r->n, "an entry walk visits every element");
    list_for_each_entry_reverse(x, h, l) { CHECK(k > 0 && x == r->e[k-1], "a backward entry walk visits them in reverse"); if (--k < 0) break; }
    CHECK(k == 0, "a backward entry walk visits every element");
    list_for_each_safe(p, t, h) { CHECK(k < r->n && p == &r->e[k]->l, "a safe walk visits the elements in order"); if (++k > r->n) break; }
    CHECK(k == r->n, "a safe walk visits every element");
    list_for_each_entry_safe_reverse(x, y, h, l) { CHECK(k > 0 && x == r->e[k-1], "a safe backward walk visits them in reverse"); if (--k < 0) break; }
    CHECK(k == 0, "a safe backward walk visits every element");
    CHECK(list_empty(h) == (r->n == 0) && list_empty_careful(h) == (r->n == 0), "emptiness agrees");
    CHECK(list_is_singular(h) == (r->n == 1), "singularity agrees");
    if (r->n) CHECK(list_first_entry(h, node, l) == r->e[0] && list_is_last(&r->e[r->n-1]->l, h), "head and tail agree");
    if (r->n > 1) CHECK(!list_is_last(&r->e[0]->l, h), "only the last element is last");
}
static void lmk(list_head *h, ref *r, node *a, int n)
{
    list_init(h); r->n = n;
    for (int i = 0; i < n; i++) { list_add_tail(&a[i].l, h); r->e[i] = &a[i]; }
}
static void lop(int c, int k)
{
    list_head h, g; ref r, q; node *e = &E[MX - 1];
    lmk(&h, &r, E, S); lcheck(&h, &r);
    q.n = 0;
    if (c >= 2 && c <= 7 && k >= S) return;
    switch (c) {
    case 0: list_add(&e->l, &h); rins(&r, 0, e); break;
    case 1: list_add_tail(&e->l, &h); rins(&r, r.n, e); break;
    case 2: list_del(&E[k].l); rdel(&r, k); CHECK(E[k].l.next == 0 && E[k].l.prev == 0, "a deleted element has no links"); break;
    case 3: list_del_init(&E[k].l); rdel(&r, k); CHECK(list_empty(&E[k].l), "a deleted and reinitialised element is an empty list"); break;
    case 4: list_replace(&E[k].l, &e->l); r.e[k] = e; break;
    case 5: list_replace_init(&E[k].l, &e->l); r.e[k] = e; CHECK(list_empty(&E[k].l), "a replaced and reinitialised element is an empty list"); break;
    case 6: list_move(&E[k].l, &h); rdel(&r, k); rins(&r, 0, &E[k]); break;
    case 7: list_move_tail(&E[k].l, &h); rdel(&r, k); rins(&r, r.n, &E[k]); break;
    case 8: list_rotate_left(&h); if (S) { rdel(&r, 0); rins(&r, r.n, &E[0]); } break;
    case 9: case 10: case 11: case 12:
        if (k > 3) return;
        lmk(&g, &q, X, k);
        if (c == 9) list_splice(&g, &h);
        if (c == 10) list_splice_tail(&g, &h);
        if (c == 11) list_splice_init(&g, &h);
        if (c == 12) list_splice_tail_init(&g, &h);
        for (int i = 0; i < k; i++) rins(&r, (c & 1) ? i : S + i, &X[i]);
        if (c >= 11) { q.n = 0; lcheck(&g, &q); }
        break;
    case 13:                                     /* k: up to and including element k-1; 0 is the head itself */
        if (k > S) return;
        list_init(&g);
        list_cut_position(&g, &h, k ? &E[k-1].l : &h);
        for (int i = 0; i < k; i++) { rins(&q, i, &E[i]); rdel(&r, 0); }
        lcheck(&g, &q);
        break;
    case 14: {
        node *x = k < S ? &E[k] : list_prepare_entry((node *)0, &h, l); int n = k < S ? k : -1;
        list_for_each_entry_continue(x, &h, l) { n++; CHECK(n < S && x == r.e[n], "a continued walk goes on after the element"); if (n >= S) break; }
        CHECK(n == S - 1, "a continued walk goes on to the end");
        if (k >= S) break;
        x = &E[k]; n = k;
        list_for_each_entry_continue_reverse(x, &h, l) { n--; CHECK(n >= 0 && x == r.e[n], "a continued backward walk goes on before the element"); if (n < 0) break; }
        CHECK(n == 0, "a continued backward walk goes on to the start");
        x = &E[k]; n = k;
        list_for_each_entry_from(x, &h, l) { CHECK(n < S && x == r.e[n], "a walk from an element starts there"); if (++n > S) break; }
        CHECK(n == S, "a walk from an element goes on to the end");
        break; }
    default: {
        node *x, *y; int n = 0;
        list_for_each_entry_safe(x, y, &h, l) { CHECK(n < S && x == r.e[n], "removal while iterating visits each element once"); n++; list_del(&x->l); if (n > S) break; }
        CHECK(n == S, "removal while iterating visits every element"); r.n = 0;
        break; }
    }
    lcheck(&h, &r);
    REACH("ll");
}
void h_ll(void)
{
    unsigned c = nd_u8(), k = nd_u8();
    for (int i = 0; i < 16; i++) if (c == (unsigned)i)
        for (int j = 0; j < (S > 4 ? S + 1 : 5); j++) if (k == (unsigned)j) lop(i, j);
}

/* --------------------------------------------------------- hash chains */
static void hcheck(hlist_head *h, ref *r)
{
    hlist_node *p, *t; node *x; int k = 0;
    hlist_for_each(p, h) { CHECK(k < r->n && p == &r->e[k]->h, "a walk visits the elements in order"); if (++k > r->n) break; }
    CHECK(k == r->n, "a walk visits every element"); k = 0;
    hlist_for_each_entry(x, p, h, h) { CHECK(k < r->n && x == r->e[k], "an entry walk visits the elements in order"); if (++k > r->n) break; }
    CHECK(k == r->n, "an entry walk visits every element"); k = 0;
    hlist_for_each_entry_safe(x, p, t, h, h) { CHECK(k < r->n && x == r->e[k], "a safe walk visits the elements in order"); if (++k > r->n) break; }
    CHECK(k == r->n, "a safe walk visits every element");
    for (int i = 0; i < r->n; i++) CHECK(r->e[i]->h.pprev == (i ? &r->e[i-1]->h.next : &h->first), "every element knows the link to it");
    CHECK(hlist_empty(h) == (r->n == 0), "emptiness agrees");
}
static void hop(int c, int k)
{
    HLIST_HEAD(h); hlist_head g; ref r, q; node *e = &E[MX - 1];
    r.n = q.n = 0; INIT_HLIST_NODE(&e->h);
    CHECK(hlist_unhashed(&e->h), "an initialised element is on no list");
    for (int i = S - 1; i >= 0; i--) { hlist_add_head(&E[i].h, &h); rins(&r, 0, &E[i]); }
    hcheck(&h, &r);
    if (c >= 1 && c <= 4 && k >= S) return;
    switch (c) {
    case 0: hlist_add_head(&e->h, &h); rins(&r, 0, e); break;
    case 1: hlist_add_before(&e->h, &E[k].h); rins(&r, k, e); break;
    case 2: hlist_add_after(&E[k].h, &e->h); rins(&r, k + 1, e); break;
    case 3: hlist_del(&E[k].h); rdel(&r, k); break;
    case 4: hlist_del_init(&E[k].h); rdel(&r, k); CHECK(hlist_unhashed(&E[k].h), "a removed element is on no list"); hlist_del_init(&E[k].h); break;
    default: hlist_move_list(&h, &g); hcheck(&g, &r); r.n = 0; break;
    }
    hcheck(&h, &r);
    REACH("hl");
}
void h_hl(void)
{
    unsigned c = nd_u8(), k = nd_u8();
    for (int i = 0; i < 6; i++) if (c == (unsigned)i)
        for (int j = 0; j < (S > 1 ? S : 1); j++) if (k == (unsigned)j) hop(i, j);
}
