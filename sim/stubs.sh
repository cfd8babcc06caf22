#!/bin/bash
# stubs.sh OUTDIR OBJECT...: writes stubs.S and redirects the objects to it: a scheduling point in front of every call from the library
# into libmpfr, libgmp, std::string and the memory and text functions of libc (registers are preserved, the call is a tail jump)
out=$1; shift
SYM=$(nm -u "$@" | awk '$1=="U"{print $2}' | sort -u | grep -E '^(mpfr_|__gmp[a-z]*_|memcpy$|memmove$|memset$|strlen$|strcmp$|strcpy$|strncpy$|strcat$|strchr$|sprintf$|snprintf$|vsnprintf$|strtold$|strtof$|strtod$|strtou?ll?$|_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE)' | grep -vE '^__gmp_(bits_per_limb|version|errno|junk)$')
{
echo '.text'
for f in $SYM; do
  # how many leading arguments are addresses (registers that are no arguments must not be looked at)
  case $f in
    _Z*_M_assign*|_Z*_M_append*|_Z*4swapERS4_|_Z*6appendERKS4_|_Z*aSERKS4_|_Z*aSEOS4_|_Z*C[12]ERKS4_|_Z*C[12]EOS4_|_Z*pLERKS4_|_Z*7compareERKS4_) id=2;;
    _Z*) id=1;;
    memcpy|memmove) id=101;; memset) id=102;;
    mpfr_get_e*|mpfr_clear_*|mpfr_free_*|mpfr_*flag*|mpfr_*_overflow*|mpfr_*_underflow*|mpfr_*_divby0*|mpfr_*default*|mpfr_set_e*) id=0;;
    mpfr_fma|mpfr_fms) id=4;;
    mpfr_add|mpfr_sub|mpfr_mul|mpfr_div|mpfr_pow|mpfr_min|mpfr_max|mpfr_atan2|mpfr_hypot|mpfr_fmod|mpfr_remainder|__gmp[zq]_add|__gmp[zq]_sub|__gmp[zq]_mul|__gmp[zq]_div) id=3;;
    mpfr_set|mpfr_set4|mpfr_set_q|mpfr_set_z|mpfr_a*|mpfr_c*|mpfr_s[iq]*|mpfr_t*|mpfr_exp*|mpfr_log*|mpfr_neg|mpfr_pow_*|mpfr_root*|mpfr_rint*|mpfr_div_*|mpfr_mul_*|mpfr_add_*|mpfr_sub_*|mpfr_less*|mpfr_great*|mpfr_equal*|mpfr_swap|__gmp[zq]_set|__gmp[zq]_set_[zq]|__gmp[zq]_cmp|__gmp[zq]_inv|__gmp[zq]_neg|__gmp[zq]_abs|__gmpz_*_[su]i|strcmp|strcpy|strcat) id=2;;
    *) id=1;;
  esac
  case $f in mpfr_cmp_*|mpfr_clear*|mpfr_const_*|__gmpz_set_*i|__gmpz_init*|__gmpz_ui_*|mpfr_ui_*|mpfr_si_*|mpfr_set_si*|mpfr_set_ui*|mpfr_check*|mpfr_subnorm*|mpfr_sum) [ $id -gt 100 ] || { [ $id = 0 ] || id=1; };; esac
  cat <<E
.globl simx_$f
.type simx_$f,@function
simx_$f:
  push %rbp
  mov %rsp,%rbp
  and \$-16,%rsp
  sub \$192,%rsp
  mov %rdi,0(%rsp); mov %rsi,8(%rsp); mov %rdx,16(%rsp); mov %rcx,24(%rsp); mov %r8,32(%rsp); mov %r9,40(%rsp); mov %rax,48(%rsp)
  movaps %xmm0,64(%rsp); movaps %xmm1,80(%rsp); movaps %xmm2,96(%rsp); movaps %xmm3,112(%rsp); movaps %xmm4,128(%rsp); movaps %xmm5,144(%rsp); movaps %xmm6,160(%rsp); movaps %xmm7,176(%rsp)
  mov \$$id,%r8d
  call sim_call_hook@PLT
  mov 0(%rsp),%rdi; mov 8(%rsp),%rsi; mov 16(%rsp),%rdx; mov 24(%rsp),%rcx; mov 32(%rsp),%r8; mov 40(%rsp),%r9; mov 48(%rsp),%rax
  movaps 64(%rsp),%xmm0; movaps 80(%rsp),%xmm1; movaps 96(%rsp),%xmm2; movaps 112(%rsp),%xmm3; movaps 128(%rsp),%xmm4; movaps 144(%rsp),%xmm5; movaps 160(%rsp),%xmm6; movaps 176(%rsp),%xmm7
  mov %rbp,%rsp
  pop %rbp
  jmp $f@PLT
E
done
echo '.section .note.GNU-stack,"",@progbits'
} > "$out/stubs.S"
for f in $SYM; do echo "$f simx_$f"; done > "$out/stubs.txt"
for o in "$@"; do objcopy --redefine-syms="$out/stubs.txt" "$o"; done
