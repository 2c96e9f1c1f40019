#!/bin/bash
# build.sh OUTDIR : builds the drivers from /repo's current working tree.
set -e
O=${1:?outdir}; R=${REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
CC=gcc
CF="-g -O1 -fno-omit-frame-pointer -fsanitize=address -U_FORTIFY_SOURCE -pthread -I$R/include -w"
# every translation unit of the library, whatever it is called, except the two test programs
SRC=$(ls "$R"/src/*.c | grep -v -e utests.c -e greshunkel_test.c)
pids=()
cc1() { $CC $CF -I"$H" -c -o "$2" "$1"; }
# the code under test calls __sanitizer_cov_trace_pc at every basic block, and before it calls the C library: there the
# drivers may let another thread go on
LIBC="snprintf vsnprintf sprintf vsprintf printf fprintf vfprintf puts putchar fputs fputc putc fwrite fflush vprintf dprintf vdprintf \
 strlen strnlen strcpy strncpy strcat strncat memcpy memmove memset memcmp memchr memrchr memmem __asan_memcpy __asan_memmove __asan_memset \
 strcmp strncmp strcasecmp strncasecmp strchr strchrnul strrchr strstr strcasestr strspn strcspn strpbrk strtok strtok_r strsep strdup strndup asprintf \
 strtol strtoul strtoll strtoull atoi atol sscanf __isoc99_sscanf __isoc23_sscanf __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull \
 realloc free regcomp regfree localtime_r gmtime_r strftime stat fstat open fopen fread fclose fgets getline"
RENAME=""
: > "$O/points.S"
for f in $LIBC; do RENAME="$RENAME --redefine-sym $f=p_$f"; echo ".weak p_$f; p_$f: leaq $f@PLT(%rip), %r11; jmp through" >> "$O/points.S"; done
cat >> "$O/points.S" <<'EOS'
through: pushq %rdi; pushq %rsi; pushq %rdx; pushq %rcx; pushq %r8; pushq %r9; pushq %rax; pushq %r11; subq $136, %rsp
 movups %xmm0, (%rsp); movups %xmm1, 16(%rsp); movups %xmm2, 32(%rsp); movups %xmm3, 48(%rsp)
 movups %xmm4, 64(%rsp); movups %xmm5, 80(%rsp); movups %xmm6, 96(%rsp); movups %xmm7, 112(%rsp)
 call __sanitizer_cov_trace_pc
 movups (%rsp), %xmm0; movups 16(%rsp), %xmm1; movups 32(%rsp), %xmm2; movups 48(%rsp), %xmm3
 movups 64(%rsp), %xmm4; movups 80(%rsp), %xmm5; movups 96(%rsp), %xmm6; movups 112(%rsp), %xmm7
 addq $136, %rsp; popq %r11; popq %rax; popq %r9; popq %r8; popq %rcx; popq %rdx; popq %rsi; popq %rdi; jmp *%r11
.section .note.GNU-stack,"",@progbits
EOS
for s in $SRC; do { $CC $CF -fno-builtin -fsanitize-coverage=trace-pc -c -o "$O/lib_$(basename "$s" .c).o" "$s" && objcopy $RENAME "$O/lib_$(basename "$s" .c).o"; } & pids+=($!); done
$CC -c -o "$O/points.o" "$O/points.S"
for s in "$H"/drv_*.c "$H"/sim.c; do [ -e "$s" ] && { cc1 "$s" "$O/$(basename "$s" .c).o" & pids+=($!); }; done
for p in "${pids[@]}"; do wait "$p"; done
W=""
for f in mmap munmap recv recvfrom read send sendto write close setsockopt shutdown poll pthread_mutex_lock gettimeofday time clock_gettime localtime; do W="$W -Wl,--wrap=$f"; done
$CC -fsanitize=address -pthread -o "$O/apidrv" "$O"/drv_*.o "$O"/lib_*.o "$O/points.o" $W -lm -lrt
if [ -e "$O/sim.o" ]; then
W=""
for f in socket setsockopt bind listen accept accept4 recv recvfrom read send sendto write writev sendmsg open close shutdown fcntl poll \
  mq_open mq_close mq_unlink mq_send mq_receive mq_timedsend mq_timedreceive mq_getattr mq_setattr \
  pthread_create pthread_join pthread_detach pthread_cancel pthread_mutex_lock pthread_cond_wait pthread_cond_signal pthread_cond_broadcast sem_wait sem_post \
  usleep nanosleep sleep sched_yield m38_log_msg regexec calloc malloc perror; do W="$W -Wl,--wrap=$f"; done
$CC -fsanitize=address -pthread -o "$O/sim" "$O/sim.o" "$O"/lib_*.o "$O/points.o" $W -lm -lrt
fi
