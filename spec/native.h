// Native driver: runs the same obligations on concrete inputs (replay of a
// counterexample, bounded stand-in for an obligation the solver left open).
// Included after the obligations; VP_TABLE lists {name, kinds, function}.
#pragma once
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
static jmp_buf vp_jb;
static const char *vp_label;
extern "C" {
void vp_assume(bool c)
{
	if (!c) longjmp(vp_jb, 2);
}
void vp_assert(bool c, const char *l)
{
	if (!c)
	{
		vp_label = l;
		longjmp(vp_jb, 1);
	}
}
void vp_cover(bool, const char *) {}
u64 vp_nondet64() { return 0; }
u64 vp_uf1(const char *, u64) { return 0; }
u64 vp_uf2(const char *, u64, u64) { return 0; }
u64 vp_uf5(const char *, u64, u64, u64, u64, u64) { return 0; }
void vp_split(u64, i64, i64) {}
bool vp_isconst(u64) { return true; }
}
struct vp_ob
{
	const char *name, *kinds;
	void (*f)();
};
extern vp_ob vp_table[];
#ifdef VN
static const int vp_pn = VN;
#else
static const int vp_pn = 32;
#endif
static int vp_call(const vp_ob *o, const u64 *a)
{
	int r = setjmp(vp_jb);
	if (r) return r;
#define U u64
	switch (strlen(o->kinds))
	{
	case 0: o->f(); break;
	case 1: ((void (*)(U))o->f)(a[0]); break;
	case 2: ((void (*)(U, U))o->f)(a[0], a[1]); break;
	case 3: ((void (*)(U, U, U))o->f)(a[0], a[1], a[2]); break;
	case 4: ((void (*)(U, U, U, U))o->f)(a[0], a[1], a[2], a[3]); break;
	case 5: ((void (*)(U, U, U, U, U))o->f)(a[0], a[1], a[2], a[3], a[4]); break;
	case 6: ((void (*)(U, U, U, U, U, U))o->f)(a[0], a[1], a[2], a[3], a[4], a[5]); break;
	case 7: ((void (*)(U, U, U, U, U, U, U))o->f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
	case 8: ((void (*)(U, U, U, U, U, U, U, U))o->f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
	case 9: ((void (*)(U, U, U, U, U, U, U, U, U))o->f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
	}
#undef U
	return 0;
}
static u64 vp_s[2];
static u64 vp_rnd()
{
	u64 a = vp_s[0], b = vp_s[1];
	vp_s[0] = b;
	a ^= a << 23;
	vp_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
	return vp_s[1] + b;
}
static u64 vp_bits(int n) // n bits with runs, sparse or dense
{
	u64 v = vp_rnd();
	switch (vp_rnd() % 6)
	{
	case 0: v &= vp_rnd() & vp_rnd(); break;
	case 1: v |= vp_rnd() | vp_rnd(); break;
	case 2:
	{
		int k = vp_rnd() % (n + 1);
		u64 m = k >= 64 ? 0 : ~(u64)0 << k;
		v = (vp_rnd() & 1) ? v | m : v & ~m;
		break;
	}
	case 3: v = ((u64)1 << (vp_rnd() % n)) + (vp_rnd() % 5) - 2; break;
	case 4:
	{
		int k = vp_rnd() % (n + 1);
		v = k >= 64 ? 0 : v << k;
		break;
	}
	default: break;
	}
	return n >= 64 ? v : v & (((u64)1 << n) - 1);
}
static u64 vp_arg(char k, u64 prev, bool havep)
{
	u64 r = vp_rnd();
	switch (k)
	{
	case 'p':
	{
		u64 v;
		if (havep && r % 4 == 0)
			v = (r & 8 ? -prev : prev) + (vp_rnd() % 5) - 2;
		else if (r % 16 == 1)
			v = ((u64)1 << (vp_pn - 1)) + (vp_rnd() % 9) - 4;
		else if (r % 16 == 2)
			v = (vp_rnd() % 9) - 4;
		else
			v = vp_bits(vp_pn);
		return (u64)((i64)(v << (64 - vp_pn)) >> (64 - vp_pn));
	}
	case 'f':
	{
		static const uint32_t e[] = {0, 1, 2, 0xff, 0xfe, 0x7f, 0x80, 0x7e};
		u64 x = r % 3 ? vp_rnd() & 0xff : e[vp_rnd() % 8];
		return (vp_rnd() & 1) << 31 | x << 23 | vp_bits(23);
	}
	case 'd':
	{
		static const uint32_t e[] = {0, 1, 2, 0x7ff, 0x7fe, 0x3ff, 0x400, 0x3fe};
		u64 x = r % 3 ? (r % 3 == 1 ? vp_rnd() & 0x7ff : 0x3ff - 40 + vp_rnd() % 80) : e[vp_rnd() % 8];
		return (vp_rnd() & 1) << 63 | x << 52 | vp_bits(52);
	}
	case 'i':
		return (u64)(i64)(int32_t)(r % 2 ? vp_bits(32) : (u64)0 - vp_bits(31));
	case 's': return r & 7;
	case 'e':
		if (r % 3 == 0 && havep) return prev + (vp_rnd() % 9) - 4;
		return (u64)((i64)(vp_rnd() << 16) >> (r % 2 ? 52 : 57 + (int)(vp_rnd() % 7)));
	default: return vp_bits(64);
	}
}
int main(int c, char **v)
{
	u64 a[16] = {0};
	const vp_ob *o = 0;
	if (c < 3) return 9;
	for (const vp_ob *p = vp_table; p->name; p++)
		if (!strcmp(p->name, v[2])) o = p;
	if (!o) return 9;
	int n = strlen(o->kinds);
	if (!strcmp(v[1], "run"))
	{
		for (int i = 0; i < n; i++) a[i] = c > 3 + i ? strtoull(v[3 + i], 0, 16) : 0;
		int r = vp_call(o, a);
		if (r == 1) printf("FAILED %s: %s\n", o->name, vp_label);
		if (r == 2) printf("input outside the precondition\n");
		if (r == 0) printf("holds\n");
		return r;
	}
	// fuzz <ob> <seconds> <seed> [near values...]
	double secs = atof(v[3]);
	vp_s[0] = strtoull(v[4], 0, 10) * 0x9e3779b97f4a7c15ull + 1;
	vp_s[1] = 0x1234567ull;
	for (int i = 0; i < 8; i++) vp_rnd();
	u64 base[16];
	int nb = 0;
	for (int i = 5; i < c && nb < 16; i++) base[nb++] = strtoull(v[i], 0, 16);
	unsigned long tried = 0, inside = 0;
	bool allp = n > 0;
	for (int i = 0; i < n; i++) allp = allp && o->kinds[i] == 'p';
	if (allp && vp_pn * n <= 24)
	{ // all of them
		for (u64 k = 0; k < (u64)1 << (vp_pn * n); k++)
		{
			for (int i = 0; i < n; i++) a[i] = (u64)((i64)((k >> (vp_pn * i)) << (64 - vp_pn)) >> (64 - vp_pn));
			int r = vp_call(o, a);
			tried++;
			inside += r != 2;
			if (r == 1) goto bad;
		}
		printf("OK exhaustive tried=%lu inside=%lu\n", tried, inside);
		return 0;
	}
	{
		clock_t t0 = clock();
		do
		{
			for (int it = 0; it < 1000; it++)
			{
				for (int i = 0; i < n; i++)
				{
					u64 pv = 0;
					bool have = false;
					for (int j = 0; j < i; j++)
						if (o->kinds[j] == o->kinds[i]) pv = a[j], have = true;
					if (nb > i && vp_rnd() % 3 == 0)
						a[i] = base[i] + (vp_rnd() % 3 == 0 ? (vp_rnd() % 5) - 2 : 0);
					else
						a[i] = vp_arg(o->kinds[i], pv, have);
				}
				int r = vp_call(o, a);
				tried++;
				inside += r != 2;
				if (r == 1) goto bad;
			}
		} while ((double)(clock() - t0) / CLOCKS_PER_SEC < secs);
	}
	printf("OK sampled tried=%lu inside=%lu\n", tried, inside);
	return 0;
bad:
	printf("FAILED %s: %s args", o->name, vp_label);
	for (int i = 0; i < n; i++) printf(" %llx", (unsigned long long)a[i]);
	printf("\n");
	return 1;
}
