/* write() and exit() without a C library, for whatever Clang, lld and qemu
 * (or node, for wasm) can run here. */
#include <stddef.h>
#if defined(__wasm__)
__attribute__((import_module("env"), import_name("put"))) void host_put(const char *, unsigned long);
static void sys_write(const char *s, size_t n) { host_put(s, n); }
static void sys_exit(int c) { (void) c; }
#else
static long sys(long n, long x, long y, long z)
{
#if defined(__powerpc__)
	register long r0 __asm__("r0") = n, r3 __asm__("r3") = x, r4 __asm__("r4") = y, r5 __asm__("r5") = z;
	__asm__ volatile("sc" : "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5) :: "memory", "cr0", "r6", "r7", "r8", "r9", "r10", "r11", "r12");
	return r3;
#elif defined(__mips__)
	register long v0 __asm__("$2") = n, a0 __asm__("$4") = x, a1 __asm__("$5") = y, a2 __asm__("$6") = z, a3 __asm__("$7") = 0;
	__asm__ volatile("syscall" : "+r"(v0), "+r"(a3) : "r"(a0), "r"(a1), "r"(a2) : "memory", "$1", "$3", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "hi", "lo");
	return v0;
#elif defined(__riscv)
	register long a7 __asm__("a7") = n, a0 __asm__("a0") = x, a1 __asm__("a1") = y, a2 __asm__("a2") = z;
	__asm__ volatile("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory");
	return a0;
#elif defined(__sparc__)
	register long g1 __asm__("g1") = n, o0 __asm__("o0") = x, o1 __asm__("o1") = y, o2 __asm__("o2") = z;
	__asm__ volatile("ta 0x6d" : "+r"(o0), "+r"(o1), "+r"(g1) : "r"(o2) : "memory", "cc");
	return o0;
#elif defined(__arm__)
	register long r0 __asm__("r0") = x, r1 __asm__("r1") = y, r2 __asm__("r2") = z;
	/* r7 may be the frame pointer */
	__asm__ volatile("push {r7}\n\tmov r7, %[n]\n\tsvc 0\n\tpop {r7}" : "+r"(r0) : [n]"r"(n), "r"(r1), "r"(r2) : "memory");
	return r0;
#elif defined(__aarch64__)
	register long x8 __asm__("x8") = n, x0 __asm__("x0") = x, x1 __asm__("x1") = y, x2 __asm__("x2") = z;
	__asm__ volatile("svc 0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2) : "memory");
	return x0;
#elif defined(__loongarch__)
	register long a7 __asm__("$a7") = n, a0 __asm__("$a0") = x, a1 __asm__("$a1") = y, a2 __asm__("$a2") = z;
	__asm__ volatile("syscall 0" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory", "$t0", "$t1", "$t2", "$t3", "$t4", "$t5", "$t6", "$t7", "$t8");
	return a0;
#elif defined(__hexagon__)
	register long r6 __asm__("r6") = n, r0 __asm__("r0") = x, r1 __asm__("r1") = y, r2 __asm__("r2") = z;
	__asm__ volatile("trap0(#1)" : "+r"(r0) : "r"(r6), "r"(r1), "r"(r2) : "memory");
	return r0;
#elif defined(__x86_64__)
	long r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(x), "S"(y), "d"(z) : "rcx", "r11", "memory");
	return r;
#else
#error "no system calls known"
#endif
}
#if defined(__powerpc__) || defined(__sparc__) || defined(__arm__)
#define NR_write 4
#define NR_exit 1
#elif defined(__mips__) && _MIPS_SIM == _ABIO32
#define NR_write 4004
#define NR_exit 4001
#elif defined(__mips__) && _MIPS_SIM == _ABI64
#define NR_write 5001
#define NR_exit 5058
#elif defined(__mips__)
#define NR_write 6001
#define NR_exit 6058
#elif defined(__x86_64__)
#define NR_write 1
#define NR_exit 60
#else
#define NR_write 64
#define NR_exit 93
#endif
static void sys_write(const char *s, size_t n) { sys(NR_write, 1, (long) s, (long) n); }
static void sys_exit(int c) { for (;;) sys(NR_exit, c, 0, 0); }
#endif
