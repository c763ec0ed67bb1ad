// Stand-in for libhdfs: remote names are files below a local folder, reads return as many bytes as they like.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

typedef struct
{
    int mKind;
    char *mName;
    time_t mLastMod;
    int64_t mSize;
    short mReplication;
    int64_t mBlockSize;
    char *mOwner;
    char *mGroup;
    short mPermissions;
    time_t mLastAccess;
} Info;

typedef struct
{
    void *file;
    int type;
    int flags;
} File;

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static char root[4096];
static uint64_t state = 88172645463325252ull;
static int shorts = 0, delay = 0;
static int64_t counts[8]; // connects, open files, files opened, live infos, reads, short reads, misuse, bytes
static char connected[1 << 16];

static uint64_t next_random()
{
    state ^= state << 13;
    state ^= state >> 7;
    state ^= state << 17;
    return state;
}

static void add(int i, int64_t by)
{
    pthread_mutex_lock(&lock);
    counts[i] += by;
    pthread_mutex_unlock(&lock);
}

void vh_setup(const char *folder, uint64_t seed, int short_reads, int delay_us)
{
    pthread_mutex_lock(&lock);
    snprintf(root, sizeof(root), "%s", folder);
    state = seed | 1;
    shorts = short_reads;
    delay = delay_us;
    memset(counts, 0, sizeof(counts));
    connected[0] = 0;
    pthread_mutex_unlock(&lock);
}

int64_t vh_count(int i)
{
    pthread_mutex_lock(&lock);
    int64_t c = counts[i];
    pthread_mutex_unlock(&lock);
    return c;
}

void vh_connected(char *out, size_t size)
{
    pthread_mutex_lock(&lock);
    snprintf(out, size, "%s", connected);
    pthread_mutex_unlock(&lock);
}

// Name of the local file for scheme://authority/path, or nothing.
static int local(const char *name, char *out)
{
    const char *p = strstr(name, "://");
    if (!p)
        return -1;
    if (strncmp(name, "file://", 7) == 0)
    {
        if (strncmp(name + 7, root, strlen(root)) != 0)
            return -1;
        snprintf(out, 8192, "%s", name + 7);
        return 0;
    }
    char flat[4096];
    snprintf(flat, sizeof(flat), "%s", p + 3);
    if (strstr(flat, ".."))
        return -1;
    snprintf(out, 8192, "%s/%.*s/%s", root, (int)(p - name), name, flat);
    return 0;
}

void *hdfsConnect(const char *host, uint16_t port)
{
    pthread_mutex_lock(&lock);
    counts[0]++;
    char line[4200];
    snprintf(line, sizeof(line), "%s|%d\n", host, port);
    if (!strstr(connected, line) && strlen(connected) + strlen(line) < sizeof(connected))
        strcat(connected, line);
    pthread_mutex_unlock(&lock);
    return &lock;
}

int hdfsDisconnect(void *fs)
{
    return 0;
}

int hdfsExists(void *fs, const char *path)
{
    char p[8192];
    struct stat s;
    return local(path, p) == 0 && stat(p, &s) == 0 ? 0 : -1;
}

static void fill(Info *i, const char *name, const char *path)
{
    struct stat s;
    memset(i, 0, sizeof(*i));
    if (stat(path, &s) == 0)
    {
        i->mKind = S_ISDIR(s.st_mode) ? 'D' : 'F';
        i->mSize = s.st_size;
    }
    i->mName = strdup(name);
    i->mOwner = strdup("owner");
    i->mGroup = strdup("group");
    add(3, 1);
}

Info *hdfsGetPathInfo(void *fs, const char *path)
{
    char p[8192];
    if (hdfsExists(fs, path) != 0 || local(path, p) != 0)
    {
        errno = ENOENT;
        return NULL;
    }
    Info *i = malloc(sizeof(Info));
    fill(i, path, p);
    return i;
}

void hdfsFreeFileInfo(Info *infos, int n)
{
    for (int i = 0; i < n; ++i)
    {
        free(infos[i].mName);
        free(infos[i].mOwner);
        free(infos[i].mGroup);
        add(3, -1);
    }
    free(infos);
}

Info *hdfsListDirectory(void *fs, const char *path, int *n)
{
    char p[8192], full[9000], name[9000];
    *n = 0;
    if (local(path, p) != 0)
        return NULL;
    DIR *d = opendir(p);
    if (!d)
        return NULL;
    int cap = 16;
    Info *res = malloc(cap * sizeof(Info));
    struct dirent *e;
    size_t end = strlen(path);
    while (end && path[end - 1] == '/')
        --end;
    // The local file system of the real library names files with a single slash.
    int skip = strncmp(path, "file://", 7) == 0 ? 7 : 0;
    while ((e = readdir(d)))
    {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
            continue;
        if (*n == cap)
            res = realloc(res, (cap *= 2) * sizeof(Info));
        snprintf(full, sizeof(full), "%s/%s", p, e->d_name);
        snprintf(name, sizeof(name), "%s%.*s/%s", skip ? "file:" : "", (int)(end - skip), path + skip, e->d_name);
        fill(&res[(*n)++], name, full);
    }
    closedir(d);
    pthread_mutex_lock(&lock);
    for (int i = *n - 1; i > 0; --i)
    {
        int j = next_random() % (i + 1);
        Info t = res[i];
        res[i] = res[j];
        res[j] = t;
    }
    pthread_mutex_unlock(&lock);
    return res;
}

File *hdfsOpenFile(void *fs, const char *path, int flags, int buffer, short replication, int32_t block)
{
    char p[8192];
    if (local(path, p) != 0)
        return NULL;
    FILE *f = fopen(p, "rb");
    if (!f)
        return NULL;
    File *r = malloc(sizeof(File));
    r->file = f;
    r->type = 1;
    r->flags = flags;
    add(1, 1);
    add(2, 1);
    return r;
}

int32_t hdfsRead(void *fs, File *f, void *buffer, int32_t length)
{
    if (!f || f->type != 1 || length < 0)
    {
        add(6, 1);
        return -1;
    }
    int32_t n = length;
    int wait = 0;
    pthread_mutex_lock(&lock);
    counts[4]++;
    if (shorts && n > 1 && next_random() % 100 < (uint64_t)shorts)
    {
        n = 1 + next_random() % (n - 1);
        if (next_random() % 4 == 0)
            n = 1 + n % 7;
    }
    if (delay && next_random() % 8 == 0)
        wait = next_random() % delay;
    pthread_mutex_unlock(&lock);
    if (wait)
        usleep(wait);
    int32_t got = fread(buffer, 1, n, f->file);
    if (got < length)
        add(5, 1);
    add(7, got);
    return got;
}

int hdfsCloseFile(void *fs, File *f)
{
    if (!f || f->type != 1)
    {
        add(6, 1);
        return -1;
    }
    f->type = 0;
    fclose(f->file);
    free(f);
    add(1, -1);
    return 0;
}
