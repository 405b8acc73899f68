#include <stddef.h>
#include <sys/types.h>
#include "quota.h"
#include "quota_lessor.h"
void *vc_refs[] = { quota_init, quota_total, quota_used, quota_get_total_and_used, quota_set, quota_use,
	quota_release, quota_leased, quota_available, quota_lessor_create, quota_lessor_destroy, quota_lease,
	quota_end_lease };
