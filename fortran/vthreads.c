/* Threads for the generated drivers: runs vt_body(region, thread) in n threads
   which are all released together; plain pthreads, so that ThreadSanitizer
   sees every synchronisation there is. */
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
extern void vt_body(int *region, int *thread);
struct job { int region, thread; pthread_barrier_t *gate; };
static void *start(void *p)
{
    struct job *j = p;
    pthread_barrier_wait(j->gate);
    vt_body(&j->region, &j->thread);
    return 0;
}
void vt_run(int region, int n)
{
    pthread_t t[64];
    struct job j[64];
    pthread_barrier_t gate;
    pthread_barrier_init(&gate, 0, n);
    for (int i = 0; i < n; i++) {
        j[i].region = region; j[i].thread = i + 1; j[i].gate = &gate;
        pthread_create(&t[i], 0, start, &j[i]);
    }
    for (int i = 0; i < n; i++) pthread_join(t[i], 0);
    pthread_barrier_destroy(&gate);
}
void vt_pause(int us) { if (us > 0) usleep(us); else sched_yield(); }
