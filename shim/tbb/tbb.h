#include "vf_sched.h"
