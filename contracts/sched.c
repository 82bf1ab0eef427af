/* Replaces the OpenMP entry points of a natively compiled contract or kernel:
   every iteration block of a parallel region runs on the calling thread, in an
   order chosen by VF_ORDER (0 ascending, 1 descending, 2 odd blocks first).
   Preloaded to replay a schedule; two orders with different results show that
   the result depends on the schedule. */
#include <stdlib.h>
static int nt = 1, tid = 0;
int vf_order = -1;
static int ord(void)
{
    if (vf_order < 0) {
        const char* s = getenv("VF_ORDER");
        return s ? atoi(s) : 0;
    }
    return vf_order;
}
int omp_get_num_threads(void) { return nt; }
int omp_get_thread_num(void) { return tid; }
int omp_get_max_threads(void) { return 4096; }
int omp_get_num_procs(void) { return 4096; }
int omp_in_parallel(void) { return nt > 1; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned flags)
{
    (void)flags;
    if (nt > 1) {
        /* nested: one thread */
        int a = nt, b = tid;
        nt = 1, tid = 0;
        fn(data);
        nt = a, tid = b;
        return;
    }
    nt = num ? (int)num : 4096;
    switch (ord()) {
    case 0:
        for (tid = 0; tid < nt; tid++) fn(data);
        break;
    case 1:
        for (tid = nt - 1; tid >= 0; tid--) fn(data);
        break;
    default:
        for (tid = 1; tid < nt; tid += 2) fn(data);
        for (tid = 0; tid < nt; tid += 2) fn(data);
    }
    nt = 1, tid = 0;
}
void GOMP_barrier(void) {}
