extern int simvfsHook(int kind, char *name, int n);
extern long long simvfsNow(void);
extern void simvfsSleep(int us);
int simvfs_register(void);
void simvfs_died(const char *p);
void simvfs_powercut(const char *p, unsigned long long seed);
void simvfs_wipe(const char *p,const char *run);
int simvfs_count(void);
void simvfs_tz(const char *tz);
extern long long simvfs_writes, simvfs_syncs;
void simvfs_seed(unsigned long long x);
