// Conversions and sums by the compiler's own half, x87 and quad types.
// Each input line is a case; see native_test.go.
#include <inttypes.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

static double d(uint64_t x) { double r; memcpy(&r, &x, 8); return r; }
static uint64_t db(double x) { uint64_t r; memcpy(&r, &x, 8); return r; }
static uint32_t fb(float x) { uint32_t r; memcpy(&r, &x, 4); return r; }
static uint16_t hb(_Float16 x) { uint16_t r; memcpy(&r, &x, 2); return r; }
static long double ld(uint16_t se, uint64_t m) {
	long double r = 0;
	memcpy(&r, &m, 8);
	memcpy((char *)&r + 8, &se, 2);
	return r;
}
static void pl(long double x) {
	uint64_t m; uint16_t se;
	memcpy(&m, &x, 8);
	memcpy(&se, (char *)&x + 8, 2);
	printf(" %x %" PRIx64, se, m);
}
static __float128 q(uint64_t hi, uint64_t lo) {
	__float128 r;
	memcpy(&r, &lo, 8);
	memcpy((char *)&r + 8, &hi, 8);
	return r;
}
static void pq(__float128 x) {
	uint64_t hi, lo;
	memcpy(&lo, &x, 8);
	memcpy(&hi, (char *)&x + 8, 8);
	printf(" %" PRIx64 " %" PRIx64, hi, lo);
}

int main(void) {
	char k;
	uint64_t a, b, c, e;
	while (scanf(" %c %" SCNx64 " %" SCNx64 " %" SCNx64 " %" SCNx64, &k, &a, &b, &c, &e) == 5) {
		switch (k) {
		case 'd': { // double a: half, x87, quad
			volatile double x = d(a);
			printf("%x", hb((_Float16)x));
			pl(x);
			pq(x);
			break;
		}
		case 'x': { // x87 a:b, c:e: double, float, sum, product
			volatile long double x = ld(a, b), y = ld(c, e);
			printf("%" PRIx64 " %x", db((double)x), fb((float)x));
			pl(x + y);
			pl(x * y);
			break;
		}
		case 'q': { // quad a:b, c:e
			volatile __float128 x = q(a, b), y = q(c, e);
			printf("%" PRIx64 " %x %x", db((double)x), fb((float)x), hb((_Float16)x));
			pl((long double)x);
			pq(x + y);
			pq(x * y);
			break;
		}
		}
		printf("\n");
	}
	return 0;
}
