/* Native replay run-time: pops the recorded solver values in order. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <inttypes.h>

static FILE* vf_file;
static int vf_tried;
static int vf_exhausted;

uint64_t vf_next(void) {
    if (!vf_tried) {
        const char* path = getenv("VF_REPLAY");
        vf_tried = 1;
        if (path != NULL)
            vf_file = fopen(path, "r");
    }
    while (vf_file != NULL) {
        char line[256];
        char* e;
        uint64_t v;
        if (fgets(line, sizeof(line), vf_file) == NULL)
            break;
        if (line[0] == '#' || line[0] == '\n')
            continue;
        v = strtoull(line, &e, 0);
        return v;
    }
    vf_exhausted = 1;
    return 0;
}

void vf_check_failed(const char* msg, const char* file, int line) {
    printf("VF-CHECK-FAILED %s (%s:%d)\n", msg, file, line);
    fflush(stdout);
    _Exit(10);
}

void vf_assume_failed(const char* file, int line) {
    printf("VF-ASSUME-FAILED (%s:%d)%s\n", file, line, vf_exhausted ? " after inputs ran out" : "");
    fflush(stdout);
    _Exit(11);
}

void vf_end(void) {
    printf("VF-END%s\n", vf_exhausted ? " (inputs ran out)" : "");
    fflush(stdout);
}
