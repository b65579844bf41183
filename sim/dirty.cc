// What the library calls in place of malloc, read, ...: the simulated function, after which the dead
// stack below the caller is filled with a byte the scenario chooses. Locals that are used without being
// set then differ between two executions of a scenario, instead of holding what the stub left there.
extern "C" { unsigned char g_dirt = 0xA5; }
#define DIRTY(f) asm( \
	".text\n.globl dirty_" #f "\n.type dirty_" #f ", @function\ndirty_" #f ":\n.cfi_startproc\n" \
	"sub $8, %rsp\n.cfi_adjust_cfa_offset 8\ncall sim_" #f "\nadd $8, %rsp\n.cfi_adjust_cfa_offset -8\n" \
	"mov %rax, %rdx\nlea -1536(%rsp), %rdi\nmov $1536, %ecx\nmovzbl g_dirt(%rip), %eax\nrep stosb\nmov %rdx, %rax\nret\n" \
	".cfi_endproc\n.size dirty_" #f ", . - dirty_" #f "\n");
DIRTY(malloc) DIRTY(calloc) DIRTY(realloc) DIRTY(free) DIRTY(select) DIRTY(poll) DIRTY(read) DIRTY(write)
DIRTY(open) DIRTY(close) DIRTY(fopen) DIRTY(fread) DIRTY(fclose) DIRTY(getrandom) DIRTY(uuid_generate)
