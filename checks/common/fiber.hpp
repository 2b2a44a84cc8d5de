// Minimal context switch (x86-64 System V): no system calls, callee-saved registers and the stack pointer only
#ifndef FIBER_HPP
#define FIBER_HPP
#include <cstdint>
#include <cstddef>
namespace fb {
struct Ctx { void *sp = nullptr; };
extern "C" void fvens_fb_switch(void **from, void *to);
#ifdef FIBER_IMPLEMENT
asm(R"(
.text
.globl fvens_fb_switch
.type fvens_fb_switch,@function
fvens_fb_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size fvens_fb_switch,.-fvens_fb_switch
)");
#endif
inline void make(Ctx& c, void *stack, size_t size, void (*fn)()) {
	uintptr_t top = ((uintptr_t)stack + size) & ~(uintptr_t)63;
	void **p = (void**)top;
	*--p = nullptr;               // fake return address of fn (never returns); keeps alignment
	*--p = (void*)fn;
	for(int i = 0; i < 6; i++) *--p = nullptr;
	c.sp = p;
}
inline void swap(Ctx& from, Ctx& to) { fvens_fb_switch(&from.sp, to.sp); }
}
#endif
