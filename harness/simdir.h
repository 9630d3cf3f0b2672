// An in-memory Directory with POSIX unlink semantics, an operation log, a power-failure model and fault injection.
#pragma once
#include "h.h"
#include "BufferedIndexInput.h"
#include "BufferedIndexOutput.h"
#include "Directory.h"
#include "SingleInstanceLockFactory.h"
#include "Lock.h"
#include "LockFactory.h"
#include <memory>

namespace vh {

typedef std::shared_ptr<std::string> Bytes;

struct SimFile {
    Bytes data;                       // what readers see
    bool synced = false;              // everything up to now is on stable storage
    bool hadSync = false;             // an earlier state was synced ...
    Bytes stable;                     // ... and this is it
    bool open = false;                // an output is open on it
    std::vector<Bytes> versions;      // successive contents since the last sync, one per write to the file
};

// The state of the simulated device; shared by all Directory objects over it.
struct SimDev {
    std::map<std::string, SimFile> files;
    std::map<std::string, Bytes> gone;      // synced files whose removal may not have reached the disk: nothing was synced since
    std::set<std::string> locks;
    long ops = 0;                           // storage operations so far
    std::vector<std::string> log;           // the operations, for events
    bool logging = false;
    // faults
    long failAt = -1;                       // operation number that fails
    bool failSticky = false;                // ... and all later ones
    int failMask = ~0;                      // kinds of operation that may fail
    long failed = 0;
    int openFiles = 0;                      // inputs and outputs not yet closed
    bool busyDelete = false;                // files open for reading cannot be deleted (as on Windows)
    std::map<std::string, int> readers;     // open inputs per file name
    std::function<void(const char* op, const std::string& file)> hook;   // before each operation
    enum { CREATE = 1, WRITE = 2, SYNC = 4, DELETE_ = 8, OPEN = 16, READ = 32, CLOSE = 64, LIST = 128 };
    void step(int kind, const char* op, const std::string& f);
    std::shared_ptr<SimDev> crash(Rng& r, int variant, bool withGone = true) const;   // one state the device may have after losing power
    std::shared_ptr<SimDev> copy() const;
    std::vector<std::string> list() const;
};
typedef std::shared_ptr<SimDev> Dev;

class SimDirectory : public Directory {
public:
    explicit SimDirectory(Dev d) : dev(d) {}
    LUCENE_CLASS(SimDirectory);
    Dev dev;
    std::map<String, IndexOutputPtr> unused;
    void init();
    virtual HashSet<String> listAll();
    virtual bool fileExists(const String& name);
    virtual uint64_t fileModified(const String& name);
    virtual void touchFile(const String& name);
    virtual void deleteFile(const String& name);
    virtual int64_t fileLength(const String& name);
    virtual IndexOutputPtr createOutput(const String& name);
    virtual IndexInputPtr openInput(const String& name);
    virtual IndexInputPtr openInput(const String& name, int32_t bufferSize);
    virtual void sync(const String& name);
    virtual void close();
    virtual String getLockID();
};
typedef boost::shared_ptr<SimDirectory> SimDirectoryPtr;
SimDirectoryPtr newSim(Dev d);
}
