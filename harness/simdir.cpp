#include "simdir.h"
#include <execinfo.h>
#include "LuceneException.h"
#include <mutex>

namespace vh {

static std::recursive_mutex simMu;   // one lock for every simulated device: short critical sections
typedef std::lock_guard<std::recursive_mutex> G;

void SimDev::step(int kind, const char* op, const std::string& f) {
    if (hook) hook(op, f);
    ++ops;
    if (logging) log.push_back(std::string(op) + ":" + f);
    if (failAt >= 0 && (kind & failMask)) {
        bool hit = failSticky ? ops >= failAt : (ops >= failAt && failed == 0);
        if (hit) {
            ++failed;
            if (getenv("VBT")) { void* fr[40]; fprintf(stderr, "== %s %s\n", op, f.c_str()); backtrace_symbols_fd(fr, backtrace(fr, 40), 2); }
            boost::throw_exception(IOException(L"injected failure"));
        }
    }
}

std::vector<std::string> SimDev::list() const {
    std::vector<std::string> v;
    for (auto& f : files) v.push_back(f.first);
    return v;
}

Dev SimDev::copy() const {
    Dev d = std::make_shared<SimDev>();
    for (auto& f : files) {
        SimFile s = f.second;
        s.data = std::make_shared<std::string>(*f.second.data);
        s.versions.clear();
        s.open = false;
        d->files[f.first] = s;
    }
    return d;
}

// variant 0: everything unsynced is lost; 1: everything reached the disk; 2: unsynced files empty;
// 3: unsynced files cut short; other: each file its own fate
Dev SimDev::crash(Rng& r, int variant, bool withGone) const {
    Dev d = std::make_shared<SimDev>();
    for (auto& f : files) {
        const SimFile& s = f.second;
        SimFile n;
        n.synced = n.hadSync = true;
        if (s.synced) {
            n.data = std::make_shared<std::string>(*s.data);
        } else {
            int fate = variant <= 3 ? variant : r.below(7);
            if (fate == 0) {
                if (!s.hadSync) continue;
                n.data = std::make_shared<std::string>(*s.stable);
            } else if (fate == 1) n.data = std::make_shared<std::string>(*s.data);
            else if (fate == 2) n.data = std::make_shared<std::string>();
            else if (fate == 3) n.data = std::make_shared<std::string>(s.data->substr(0, s.data->size() * (1 + r.below(3)) / 4));
            else if (fate == 4 && !s.versions.empty()) n.data = std::make_shared<std::string>(*s.versions[r.below((int)s.versions.size())]);
            else if (fate == 5) { n.data = std::make_shared<std::string>(*s.data); for (size_t k = s.data->size() / 2; k < s.data->size(); ++k) (*n.data)[k] = 0; }
            else { if (!s.hadSync) continue; n.data = std::make_shared<std::string>(*s.stable); }
        }
        n.stable = n.data;
        d->files[f.first] = n;
    }
    if (variant >= 4 && withGone)
        for (auto& g : gone)
            if (!d->files.count(g.first) && r.chance(40)) {
                SimFile n;
                n.synced = n.hadSync = true;
                n.data = n.stable = std::make_shared<std::string>(*g.second);
                d->files[g.first] = n;
            }
    return d;
}

class SimOutput : public BufferedIndexOutput {
public:
    SimOutput(Dev d, const std::string& n, Bytes b) : dev(d), name(n), data(b), pos(0), isOpen(true) {}
    // like a file stream: what is dropped is closed (what was not flushed is lost)
    virtual ~SimOutput() {
        if (!isOpen) return;
        G g(simMu);
        --dev->openFiles;
        auto i = dev->files.find(name);
        if (i != dev->files.end() && i->second.data == data) i->second.open = false;
    }
    LUCENE_CLASS(SimOutput);
    Dev dev;
    std::string name;
    Bytes data;
    int64_t pos;
    bool isOpen;
    virtual void flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
        G g(simMu);
        auto i = dev->files.find(name);
        bool mine = i != dev->files.end() && i->second.data == data;
        dev->step(SimDev::WRITE, "write", name);
        // readers opened earlier keep the bytes they saw only for synced snapshots; the data itself is shared
        if (mine) {
            i = dev->files.find(name);
            if (i->second.versions.size() < 6) i->second.versions.push_back(std::make_shared<std::string>(*data));
            i->second.synced = false;
        }
        if ((int64_t)data->size() < pos + length) data->resize(pos + length);
        memcpy(&(*data)[pos], b + offset, length);
        pos += length;
    }
    virtual void close() {
        if (!isOpen) return;
        LuceneException ex;
        try { BufferedIndexOutput::close(); } catch (LuceneException& e) { ex = e; }
        G g(simMu);
        isOpen = false;
        --dev->openFiles;
        auto i = dev->files.find(name);
        if (i != dev->files.end() && i->second.data == data) i->second.open = false;
        ex.throwException();
        dev->step(SimDev::CLOSE, "close", name);
    }
    virtual void seek(int64_t p) { BufferedIndexOutput::seek(p); pos = p; }
    virtual int64_t length() { G g(simMu); return (int64_t)data->size(); }
    virtual void setLength(int64_t len) { G g(simMu); data->resize(len); }
};

class SimInput : public BufferedIndexInput {
public:
    SimInput(Dev d, const std::string& n, Bytes b, int32_t bs) : BufferedIndexInput(bs), dev(d), name(n), data(b), pos(0), isClone(false), isOpen(true) {}
    virtual ~SimInput() {
        if (isClone || !isOpen) return;
        G g(simMu);
        --dev->openFiles;
        if (--dev->readers[name] == 0) dev->readers.erase(name);
    }
    LUCENE_CLASS(SimInput);
    Dev dev;
    std::string name;
    Bytes data;
    int64_t pos;
    bool isClone, isOpen;
    virtual void close() {
        if (isClone || !isOpen) return;
        G g(simMu);
        isOpen = false;
        --dev->openFiles;
        if (--dev->readers[name] == 0) dev->readers.erase(name);
    }
    virtual int64_t length() { return (int64_t)data->size(); }
    virtual LuceneObjectPtr clone(const LuceneObjectPtr& other = LuceneObjectPtr()) {
        boost::shared_ptr<SimInput> c = newLucene<SimInput>(dev, name, data, bufferSize);
        BufferedIndexInput::clone(c);
        c->pos = pos;
        c->isClone = true;
        return c;
    }
protected:
    virtual void readInternal(uint8_t* b, int32_t offset, int32_t length) {
        G g(simMu);
        if (dev->failAt >= 0) dev->step(SimDev::READ, "read", name);
        int64_t p = getFilePointer();
        if (p + length > (int64_t)data->size()) boost::throw_exception(IOException(L"read past EOF"));
        memcpy(b + offset, data->data() + p, length);
    }
    virtual void seekInternal(int64_t) {}
};

SimDirectoryPtr newSim(Dev d) {
    SimDirectoryPtr p = newLucene<SimDirectory>(d);
    p->init();
    return p;
}
void SimDirectory::init() { setLockFactory(newLucene<SingleInstanceLockFactory>()); }

HashSet<String> SimDirectory::listAll() {
    G g(simMu);
    HashSet<String> r(HashSet<String>::newInstance());
    for (auto& f : dev->files) r.add(w(f.first));
    return r;
}
bool SimDirectory::fileExists(const String& n) { G g(simMu); return dev->files.count(u8(n)) > 0; }
uint64_t SimDirectory::fileModified(const String& n) { return 1000; }
void SimDirectory::touchFile(const String& n) {}
void SimDirectory::deleteFile(const String& name) {
    G g(simMu);
    std::string n = u8(name);
    auto i = dev->files.find(n);
    if (i == dev->files.end()) boost::throw_exception(FileNotFoundException(name));
    dev->step(SimDev::DELETE_, "delete", n);
    if (dev->busyDelete && (dev->readers.count(n) || i->second.open)) boost::throw_exception(IOException(L"file in use: " + name));
    if (i->second.synced) dev->gone[n] = i->second.data;
    else if (i->second.hadSync) dev->gone[n] = i->second.stable;
    dev->files.erase(i);
}
int64_t SimDirectory::fileLength(const String& name) {
    G g(simMu);
    auto i = dev->files.find(u8(name));
    if (i == dev->files.end()) boost::throw_exception(FileNotFoundException(name));
    return (int64_t)i->second.data->size();
}
IndexOutputPtr SimDirectory::createOutput(const String& name) {
    G g(simMu);
    std::string n = u8(name);
    dev->step(SimDev::CREATE, "create", n);
    SimFile& f = dev->files[n];
    if (f.synced) { f.hadSync = true; f.stable = f.data; }
    else if (!f.hadSync && dev->gone.count(n)) { f.hadSync = true; f.stable = dev->gone[n]; }
    f.synced = false;
    f.data = std::make_shared<std::string>();
    f.versions.clear();
    f.versions.push_back(std::make_shared<std::string>());
    f.open = true;
    dev->gone.erase(n);
    ++dev->openFiles;
    return newLucene<SimOutput>(dev, n, f.data);
}
IndexInputPtr SimDirectory::openInput(const String& name) { return openInput(name, BufferedIndexInput::BUFFER_SIZE); }
IndexInputPtr SimDirectory::openInput(const String& name, int32_t bufferSize) {
    G g(simMu);
    std::string n = u8(name);
    auto i = dev->files.find(n);
    if (i == dev->files.end()) boost::throw_exception(FileNotFoundException(name));
    if (dev->failAt >= 0) dev->step(SimDev::OPEN, "open", n);
    ++dev->openFiles;
    ++dev->readers[n];
    return newLucene<SimInput>(dev, n, i->second.data, bufferSize);
}
void SimDirectory::sync(const String& name) {
    G g(simMu);
    std::string n = u8(name);
    auto i = dev->files.find(n);
    if (i == dev->files.end()) boost::throw_exception(FileNotFoundException(name));
    dev->step(SimDev::SYNC, "sync", n);
    i = dev->files.find(n);
    SimFile& f = i->second;
    f.synced = !f.open;           // an open output's later bytes are not covered
    f.hadSync = true;
    f.stable = f.synced ? f.data : std::make_shared<std::string>(*f.data);
    if (!f.synced) { f.stable = std::make_shared<std::string>(*f.data); }
    f.versions.clear();
    dev->gone.clear();            // removals are journalled before what is synced after them
}
void SimDirectory::close() {}
String SimDirectory::getLockID() { return L"sim-" + StringUtils::toString((int64_t)dev.get()); }
}
