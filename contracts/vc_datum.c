/* Contracts for value comparison and hashing: include/cconfigspace/base.h
 * (ccs_datum_cmp) and src/datum_hash.h (_datum_cmp, _hash_datum). */
//@property C02
//@assume Jenkins' hash function (uthash.h) is a function of the bytes it is given
//@assume not-a-number is outside the domain of ccs_datum_cmp's order laws (it compares equal to every float); _datum_cmp orders it by its bits
#include "vcommon.h"
#include "datum_uthash.h"
#include "uthash.h"
#ifdef V_CBMC
/* Jenkins' hash, by contract: a function of the bytes hashed and of nothing else */
unsigned __CPROVER_uninterpreted_jen(uint64_t, size_t);
static unsigned
v_jen(const void *k, size_t n)
{
	uint64_t w = 0;
	v_check(n <= 8, "key of at most 8 bytes");
	for (size_t i = 0; i < n; i++)
		w = (w << 8) | ((const unsigned char *)k)[i];
	return __CPROVER_uninterpreted_jen(w, n);
}
#undef HASH_JEN
#define HASH_JEN(key, keylen, hashv) ((hashv) = v_jen(key, keylen))
#endif
#include "datum_hash.h"
#include "vspec.h"
#define NK 6
static const ccs_data_type_t KINDS[NK] = {CCS_DATA_TYPE_NONE, CCS_DATA_TYPE_INT, CCS_DATA_TYPE_FLOAT, CCS_DATA_TYPE_BOOL, CCS_DATA_TYPE_OBJECT, CCS_DATA_TYPE_INACTIVE};
static ccs_datum_t
mk(ccs_data_type_t t)
{
	ccs_datum_t d;
	memset(&d, 0, sizeof(d));
	if (t == CCS_DATA_TYPE_FLOAT)
		d.value.f = nd_f64();
	else
		d.value.i = nd_i64();
	d.type  = t;
	d.flags = nd_u32();
	return d;
}
static int
sgn(int x)
{
	return x < 0 ? -1 : x > 0;
}
/* same kind, same content */
static int
same(const ccs_datum_t *a, const ccs_datum_t *b)
{
	return a->type == b->type && (a->type == CCS_DATA_TYPE_NONE || a->type == CCS_DATA_TYPE_INACTIVE || a->value.i == b->value.i);
}
#define PUB(a, b) sgn(ccs_datum_cmp(a, b))
#define PRV(a, b) sgn(_datum_cmp(&(a), &(b)))
//@unit datum_pairs unwind=9 funcs=_datum_cmp,ccs_datum_cmp
void
h_datum_pairs(void)
{
	for (int i = 0; i < NK; i++)
		for (int j = 0; j < NK; j++) {
			ccs_datum_t a = mk(KINDS[i]), b = mk(KINDS[j]), a0 = a, b0 = b;
			int x = PRV(a, b), y = PRV(b, a);
			v_check(x == -y, "antisymmetric");
			v_check((x == 0) == same(&a, &b), "equal means same kind and content");
			if (i != j)
				v_check(x == (KINDS[i] < KINDS[j] ? -1 : 1), "kinds are ordered");
			v_check(datum_same(&a, &a0) && datum_same(&b, &b0), "operands untouched");
			if (i == 2)
				v_assume(!v_isnan(a.value.f));
			if (j == 2)
				v_assume(!v_isnan(b.value.f));
			x = PUB(a, b);
			y = PUB(b, a);
			v_check(x == -y, "antisymmetric");
			if (i == j && i == 2)
				v_check(x == (a.value.f < b.value.f ? -1 : a.value.f > b.value.f), "floats by value");
			else
				v_check((x == 0) == same(&a, &b), "equal means same kind and content");
			if (i == j && i == 1)
				v_check(x == (a.value.i < b.value.i ? -1 : a.value.i > b.value.i), "integers by value");
			if (i != j)
				v_check(x == (KINDS[i] < KINDS[j] ? -1 : 1), "kinds are ordered");
		}
	V_REACH("end");
}
//@unit datum_triples unwind=9 funcs=_datum_cmp,ccs_datum_cmp
void
h_datum_triples(void)
{
	for (int i = 0; i < NK; i++) {
		ccs_datum_t a = mk(KINDS[i]), b = mk(KINDS[i]), c = mk(KINDS[i]);
		if (PRV(a, b) <= 0 && PRV(b, c) <= 0)
			v_check(PRV(a, c) <= 0 && (PRV(a, c) < 0 || (PRV(a, b) == 0 && PRV(b, c) == 0)), "transitive");
		if (i == 2)
			v_assume(!v_isnan(a.value.f) && !v_isnan(b.value.f) && !v_isnan(c.value.f));
		if (PUB(a, b) <= 0 && PUB(b, c) <= 0)
			v_check(PUB(a, c) <= 0 && (PUB(a, c) < 0 || (PUB(a, b) == 0 && PUB(b, c) == 0)), "transitive");
	}
	V_REACH("end");
}
#define L 2
static char S1[L + 1], S2[L + 1], S3[L + 1];
static ccs_datum_t
str(char *s)
{
	ccs_datum_t d = ccs_string(s);
	d.flags       = nd_u32();
	return d;
}
static void
fill(char *s)
{
	for (int i = 0; i < L; i++)
		s[i] = (char)nd_u64();
	s[L] = 0;
}
static int
streq(const char *a, const char *b)
{
	for (int i = 0; i <= L; i++) {
		if (a[i] != b[i])
			return 0;
		if (!a[i])
			return 1;
	}
	return 1;
}
//@unit datum_strings unwind=4 bounded="strings of up to 2 characters" funcs=_datum_cmp,ccs_datum_cmp
void
h_datum_strings(void)
{
	fill(S1); fill(S2); fill(S3);
	ccs_datum_t a = str(S1), b = str(S2), c = str(S3), n = str(NULL), i = ccs_int(nd_i64());
	v_check(PRV(a, b) == -PRV(b, a) && PUB(a, b) == -PUB(b, a), "antisymmetric");
	v_check((PRV(a, b) == 0) == streq(S1, S2), "equal means same content");
	v_check(PUB(a, b) == PRV(a, b), "both orders agree on strings");
	if (PRV(a, b) <= 0 && PRV(b, c) <= 0)
		v_check(PRV(a, c) <= 0 && (PRV(a, c) < 0 || (PRV(a, b) == 0 && PRV(b, c) == 0)), "transitive");
	v_check(PRV(n, a) == -1 && PRV(a, n) == 1 && PRV(n, n) == 0 && PUB(n, a) == -1 && PUB(a, n) == 1 && PUB(n, n) == 0, "no string before any string");
	v_check(PRV(i, a) == -1 && PRV(a, i) == 1 && PUB(i, a) == -1 && PUB(a, i) == 1, "kinds are ordered");
	V_REACH("end");
}
//@unit datum_hash unwind=13 funcs=_hash_datum
void
h_datum_hash(void)
{
	for (int i = 0; i < NK; i++) {
		ccs_datum_t a = mk(KINDS[i]), b = mk(KINDS[i]), a0;
		if (i != 0 && i != 5)
			b.value = a.value;
		a0 = a;
		v_check(_datum_cmp(&a, &b) == 0, "equal");
		v_check(_hash_datum(&a) == _hash_datum(&b), "equal values hash alike");
		v_check(datum_same(&a, &a0), "operand untouched");
	}
	V_REACH("end");
}
/* equal lengths are fixed per call: content decides equality */
static void
hash_len(int n)
{
	for (int i = 0; i < n; i++) {
		S1[i] = (char)nd_u64();
		v_assume(S1[i] != 0);
		S2[i] = S1[i];
	}
	S1[n] = S2[n] = 0;
}
//@unit datum_hash_str0 unwind=13 bounded="empty and missing strings" funcs=_hash_datum
void
h_datum_hash_str0(void)
{
	hash_len(0);
	S1[1] = 'x';
	ccs_datum_t a = str(S1), b = str(S2), m = str(NULL), n = str(NULL);
	v_check(_hash_datum(&a) == _hash_datum(&b) && _hash_datum(&m) == _hash_datum(&n), "equal values hash alike");
	V_REACH("end");
}
//@unit datum_hash_str2 unwind=13 bounded="strings of 2 characters" funcs=_hash_datum
void
h_datum_hash_str2(void)
{
	hash_len(2);
	ccs_datum_t a = str(S1), b = str(S2);
	v_check(_hash_datum(&a) == _hash_datum(&b), "equal values hash alike");
	V_REACH("end");
}
//@unit datum_hash_str unwind=13 bounded="sample strings at different addresses" funcs=_hash_datum
void
h_datum_hash_str(void)
{
	static char p[4] = "ab", q[5] = {'a', 'b', 0, 'x', 'y'};
	ccs_datum_t a = str(p), b = str(q);
	v_check(_datum_cmp(&a, &b) == 0 && _hash_datum(&a) == _hash_datum(&b), "equal values hash alike");
	V_REACH("end");
}
