/* forced into every jsish translation unit: fork() must return twice in the caller's frame */
#include <setjmp.h>
extern jmp_buf sim_forkbuf; int sim_fork_begin(void); int sim_fork_pid(void);
#include <unistd.h>
#define fork() (setjmp(sim_forkbuf) ? sim_fork_pid() : sim_fork_begin())
