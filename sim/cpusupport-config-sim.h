#define CPUSUPPORT_HWCAP_GETAUXVAL 1
#define CPUSUPPORT_X86_CPUID 1
#define CPUSUPPORT_X86_CPUID_COUNT 1
#define CPUSUPPORT_X86_AESNI 1
#define CPUSUPPORT_X86_SHANI 1
#define CPUSUPPORT_X86_SSE2 1
#define CPUSUPPORT_X86_SSSE3 1
