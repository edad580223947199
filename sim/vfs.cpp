#include "vfs.hpp"
#include "race.hpp"
#include "sched.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using sim::cur;

namespace vfs {
State st;
namespace {
constexpr int fdBase = 100000;
struct Handle {
	std::shared_ptr<File> f;
	std::string path;
	std::size_t off = 0;
	int flags = 0;
	bool writes = false;
	FILE* stream = nullptr;
	bool eof = false; // premature end-of-file stays
};
std::vector<std::unique_ptr<Handle>> handles;
struct Map { char* addr; std::size_t len; std::size_t real; std::string path; };
std::vector<Map> maps;

Handle* H(int fd) {
	if (fd < fdBase) return nullptr;
	auto i = static_cast<std::size_t>(fd - fdBase);
	return i < handles.size() ? handles[i].get() : nullptr;
}
bool isSim(int fd) { return fd >= fdBase; }
bool on() { return cur != nullptr && st.active; }

int newHandle(std::unique_ptr<Handle> h) {
	for (std::size_t i = 0; i < handles.size(); ++i)
		if (!handles[i]) { handles[i] = std::move(h); ++st.openHandles; return fdBase + static_cast<int>(i); }
	handles.push_back(std::move(h));
	++st.openHandles;
	return fdBase + static_cast<int>(handles.size()) - 1;
}

const char* opName(OpType t) {
	static const char* n[] = {"stat","open-r","open-w","read","write","seek","close-r","close-w","mmap","mkdir","other"};
	return n[t];
}

// Decides whether this operation fails; 0 = proceed, otherwise an errno (reads: -1 = premature EOF).
int decide(OpType t, const std::string& path) {
	++st.calls[t];
	auto& p = st.plan;
	if (!p.match.empty() && path.find(p.match) == std::string::npos) return 0;
	int n = st.counted++;
	if (n == p.actAt && p.act) {
		cur->event("environment action before op %d (%s %s)", n, opName(t), path.c_str());
		p.act();
	}
	bool hit = (n == p.at || (p.sticky && p.at >= 0 && n > p.at)) && (p.mask & (1u << t));
	// a targeted op of a type outside the mask: move the target to the next op
	if (n == p.at && !hit) { ++p.at; return 0; }
	if (!hit) return 0;
	++st.fired;
	if (t == O_OPEN_W || t == O_WRITE || t == O_CLOSE_W || t == O_MKDIR) ++st.storeFaults;
	int fl = p.flavour;
	auto fault = [&](sim::Fault f, int e, const char* what) { cur->fault(f); cur->event("fault: %s %s -> %s", opName(t), path.c_str(), what); return e; };
	switch (t) {
		case O_STAT: { static const int e[] = {EIO, EACCES, ENOENT}; return fault(sim::F_STAT_FAIL, e[fl % 3], "error"); }
		case O_OPEN_R: { ++st.openFaults; static const int e[] = {EIO, EACCES, ENOENT, EMFILE}; return fault(sim::F_OPEN_FAIL, e[fl % 4], "error"); }
		case O_OPEN_W: { ++st.openFaults; static const int e[] = {ENOSPC, EACCES, EIO, EMFILE, EROFS}; return fault(sim::F_OPEN_FAIL, e[fl % 5], "error"); }
		case O_READ: ++st.readFaults; if (p.eofFault) return fault(sim::F_READ_SHORT_EOF, -1, "premature eof"); return fault(sim::F_READ_EIO, EIO, "EIO");
		case O_WRITE: ++st.writeFaults; return fl % 2 ? fault(sim::F_WRITE_EIO, EIO, "EIO") : fault(sim::F_WRITE_ENOSPC, ENOSPC, "ENOSPC");
		case O_SEEK: return fault(sim::F_SEEK_FAIL, EIO, "EIO");
		case O_CLOSE_R: return 0; // closing a read handle cannot lose anything
		case O_CLOSE_W: ++st.writeFaults; return fault(sim::F_CLOSE_FAIL, fl % 2 ? EIO : ENOSPC, "error");
		case O_MMAP: return fault(sim::F_MMAP_FAIL, fl % 2 ? ENOMEM : ENODEV, "error");
		case O_MKDIR: { static const int e[] = {ENOSPC, EACCES, EROFS, EIO}; return fault(sim::F_MKDIR_FAIL, e[fl % 4], "error"); }
		default: return fault(sim::F_RENAME_FAIL, EIO, "EIO");
	}
}

std::string parentOf(const std::string& p) {
	auto k = p.rfind('/');
	return k == 0 || k == std::string::npos ? "/" : p.substr(0, k);
}
int checkName(const std::string& p) {
	std::size_t i = 0;
	while (i < p.size()) {
		auto j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		if (j - i > 255) return ENAMETOOLONG;
		i = j + 1;
	}
	return p.size() >= 4096 ? ENAMETOOLONG : 0;
}
// resolves a raw path; sets err when an intermediate component does not exist or is no directory
std::string resolve(const char* raw, int& err) {
	err = 0;
	if (!raw || !*raw) { err = ENOENT; return ""; }
	if ((err = checkName(raw))) return "";
	std::string in = raw;
	std::string out;
	if (in[0] != '/') out = st.cwd;
	std::size_t i = 0;
	bool trailing = in.size() > 1 && in.back() == '/';
	while (i < in.size()) {
		auto j = in.find('/', i);
		if (j == std::string::npos) j = in.size();
		std::string c = in.substr(i, j - i);
		bool last = j >= in.size() || in.find_first_not_of('/', j) == std::string::npos;
		i = j + 1;
		if (c.empty() || c == ".") { if (c == "." ) { auto f = st.files.find(out.empty() ? "/" : out); if (f == st.files.end()) { err = ENOENT; return ""; } if (!f->second->dir) { err = ENOTDIR; return ""; } } continue; }
		// the current prefix has to be a directory
		auto f = st.files.find(out.empty() ? "/" : out);
		if (f == st.files.end()) { err = ENOENT; return ""; }
		if (!f->second->dir) { err = ENOTDIR; return ""; }
		if (c == "..") {
			auto k = out.rfind('/');
			out = k == std::string::npos ? "" : out.substr(0, k);
			continue;
		}
		out += '/';
		out += c;
		(void) last;
	}
	if (out.empty()) out = "/";
	if (trailing) {
		auto f = st.files.find(out);
		if (f != st.files.end() && !f->second->dir) { err = ENOTDIR; return ""; }
	}
	return out;
}

void record(Mutation m) { st.touched.insert(m.path); if (!m.path2.empty()) st.touched.insert(m.path2); st.journal.push_back(std::move(m)); }

int doOpen(const char* raw, int flags) {
	sim::HostScope hs;
	sched::point(sched::P_SYSCALL);
	int err;
	std::string p = resolve(raw, err);
	bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
	cur->event("open %s %s", raw ? raw : "(null)", w ? "w" : "r");
	if (w) st.openedForWrite.push_back(err ? std::string(raw ? raw : "") : p);
	if (!err) err = decide(w ? O_OPEN_W : O_OPEN_R, p);
	if (err) { errno = err; return -1; }
	auto it = st.files.find(p);
	if (it == st.files.end()) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		auto par = st.files.find(parentOf(p));
		if (par == st.files.end()) { errno = ENOENT; return -1; }
		if (!par->second->dir) { errno = ENOTDIR; return -1; }
		it = st.files.emplace(p, std::make_shared<File>()).first;
		record({Mutation::CREATE, p, "", 0, {}});
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		if (it->second->dir && w) { errno = EISDIR; return -1; }
		if (!it->second->dir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
		if (flags & O_TRUNC) {
			it->second->data.clear();
			record({Mutation::TRUNC, p, "", 0, {}});
		}
	}
	auto h = std::make_unique<Handle>();
	h->f = it->second;
	h->path = p;
	h->flags = flags;
	h->writes = w;
	if (flags & O_APPEND) h->off = h->f->data.size();
	return newHandle(std::move(h));
}
int doClose(int fd) {
	sim::HostScope hs;
	sched::point(sched::P_SYSCALL);
	auto* h = H(fd);
	if (!h) { errno = EBADF; cur ? cur->violate("double-close", "close of descriptor %d that is not open", fd - fdBase) : void(); return -1; }
	bool w = h->writes;
	std::string path = h->path;
	int err = on() ? decide(w ? O_CLOSE_W : O_CLOSE_R, path) : 0;
	if (cur) cur->event("close %s", path.c_str());
	if (err > 0 && w) {
		// an error at close means that data still in flight was lost
		auto& d = h->f->data;
		if (!d.empty()) d.resize(d.size() - std::min<std::size_t>(d.size(), 1 + d.size() / 4));
	}
	handles[static_cast<std::size_t>(fd - fdBase)].reset();
	--st.openHandles;
	if (err) { errno = err; return -1; }
	return 0;
}
ssize_t doRead(int fd, void* buf, std::size_t n, long long at = -1) {
	sim::HostScope hs;
	sched::point(sched::P_SYSCALL);
	auto* h = H(fd);
	if (!h) { errno = EBADF; return -1; }
	if ((h->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
	if (h->f->dir) { errno = EISDIR; return -1; }
	int err = decide(O_READ, h->path);
	if (err == -1) h->eof = true;
	if (err > 0) { errno = err; return -1; }
	if (h->eof) return 0;
	if (st.plan.eintrP && cur->chance(st.plan.eintrP, 16)) { cur->fault(sim::F_EINTR); cur->event("EINTR on read"); errno = EINTR; return -1; }
	std::size_t off = at >= 0 ? static_cast<std::size_t>(at) : h->off;
	std::size_t avail = off < h->f->data.size() ? h->f->data.size() - off : 0;
	std::size_t k = std::min(n, avail);
	if (k > 1 && st.plan.shortReadP && cur->chance(st.plan.shortReadP, 16)) {
		k = 1 + cur->pick(static_cast<std::uint32_t>(k - 1));
		cur->fault(sim::F_SHORT_READ);
	}
	if (k) std::memcpy(buf, h->f->data.data() + off, k);
	if (at < 0) h->off += k;
	cur->event("read %s off=%zu -> %zu", h->path.c_str(), off, k);
	return static_cast<ssize_t>(k);
}
ssize_t doWrite(int fd, const struct iovec* iov, int cnt, long long at = -1) {
	sim::HostScope hs;
	sched::point(sched::P_SYSCALL);
	auto* h = H(fd);
	if (!h || !h->writes) { errno = EBADF; return -1; }
	std::size_t n = 0;
	for (int i = 0; i < cnt; ++i) n += iov[i].iov_len;
	int err = decide(O_WRITE, h->path);
	std::size_t k = n;
	if (err > 0) {
		// part of it may have reached the disk first; then the error comes
		if (n > 1 && st.plan.flavour & 4) { k = cur->pick(static_cast<std::uint32_t>(n)); cur->fault(sim::F_TORN_WRITE); }
		else k = 0;
	} else if (st.plan.eintrP && cur->chance(st.plan.eintrP, 16)) {
		cur->fault(sim::F_EINTR); cur->event("EINTR on write"); errno = EINTR; return -1;
	} else if (n > 1 && st.plan.shortWriteP && cur->chance(st.plan.shortWriteP, 16)) {
		k = 1 + cur->pick(static_cast<std::uint32_t>(n - 1));
		cur->fault(sim::F_SHORT_WRITE);
	}
	if (st.plan.spaceLeft >= 0 && static_cast<long long>(k) > st.plan.spaceLeft) {
		k = static_cast<std::size_t>(st.plan.spaceLeft);
		if (k == 0 && n > 0 && err <= 0) { err = ENOSPC; ++st.fired; ++st.writeFaults; ++st.storeFaults; cur->fault(sim::F_WRITE_ENOSPC); cur->event("fault: disk full"); }
	}
	if (st.plan.spaceLeft >= 0) st.plan.spaceLeft -= static_cast<long long>(k);
	std::size_t off = at >= 0 ? static_cast<std::size_t>(at) : ((h->flags & O_APPEND) ? h->f->data.size() : h->off);
	if (k) {
		Mutation m{Mutation::WRITE, h->path, "", off, {}};
		m.data.reserve(k);
		for (int i = 0; i < cnt && m.data.size() < k; ++i) {
			auto* b = static_cast<const unsigned char*>(iov[i].iov_base);
			m.data.insert(m.data.end(), b, b + std::min(iov[i].iov_len, k - m.data.size()));
		}
		auto& d = h->f->data;
		if (d.size() < off + k) d.resize(off + k);
		std::memcpy(d.data() + off, m.data.data(), k);
		record(std::move(m));
		if (at < 0) h->off = off + k;
	}
	cur->event("write %s off=%zu n=%zu -> %zu%s", h->path.c_str(), off, n, k, err > 0 ? " error" : "");
	if (err > 0 && (k == 0 || true)) { errno = err; return -1; }
	return static_cast<ssize_t>(k);
}
long long doSeek(int fd, long long off, int whence) {
	sim::HostScope hs;
	auto* h = H(fd);
	if (!h) { errno = EBADF; return -1; }
	if (off != 0 || whence != SEEK_CUR) { // plain "tell" does not touch the storage
		int err = decide(O_SEEK, h->path);
		if (err > 0) { errno = err; return -1; }
	}
	long long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<long long>(h->off) : static_cast<long long>(h->f->data.size());
	if (base + off < 0) { errno = EINVAL; return -1; }
	h->off = static_cast<std::size_t>(base + off);
	return static_cast<long long>(h->off);
}
void fillStat(const File& f, struct stat* s) {
	std::memset(s, 0, sizeof *s);
	s->st_mode = f.dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
	s->st_size = f.dir ? 4096 : static_cast<off_t>(f.data.size());
	s->st_nlink = 1;
	s->st_blksize = 4096;
	s->st_ino = 1 + (sim::fnv(&f, 0) & 0xffff);
}
int doStat(const char* raw, struct stat* s) {
	sim::HostScope hs;
	sched::point(sched::P_SYSCALL);
	int err;
	std::string p = resolve(raw, err);
	cur->event("stat %s", raw ? raw : "(null)");
	if (!err) err = decide(O_STAT, p);
	if (err > 0) { errno = err; return -1; }
	auto it = st.files.find(p);
	if (it == st.files.end()) { errno = ENOENT; return -1; }
	fillStat(*it->second, s);
	return 0;
}
int doFstat(int fd, struct stat* s) {
	sim::HostScope hs;
	auto* h = H(fd);
	if (!h) { errno = EBADF; return -1; }
	int err = decide(O_STAT, h->path);
	if (err > 0) { errno = err; return -1; }
	fillStat(*h->f, s);
	return 0;
}
int doMkdir(const char* raw) {
	sim::HostScope hs;
	sched::point(sched::P_SYSCALL);
	int err;
	std::string p = resolve(raw, err);
	cur->event("mkdir %s", raw ? raw : "(null)");
	if (!err && st.files.count(p)) err = EEXIST;
	if (!err) err = decide(O_MKDIR, p);
	if (!err && !st.files.count(parentOf(p))) err = ENOENT;
	if (err > 0) { errno = err; return -1; }
	auto f = std::make_shared<File>();
	f->dir = true;
	st.files[p] = f;
	record({Mutation::MKDIR, p, "", 0, {}});
	return 0;
}
int doUnlink(const char* raw, bool dir) {
	sim::HostScope hs;
	int err;
	std::string p = resolve(raw, err);
	cur->event("unlink %s", raw ? raw : "(null)");
	auto it = st.files.find(p);
	if (!err && it == st.files.end()) err = ENOENT;
	if (!err) err = decide(O_OTHER, p);
	if (!err && it->second->dir != dir && !dir) err = EISDIR;
	if (!err && dir) { auto nx = std::next(it); if (nx != st.files.end() && nx->first.compare(0, p.size() + 1, p + "/") == 0) err = ENOTEMPTY; }
	if (err > 0) { errno = err; return -1; }
	record({Mutation::UNLINK, p, "", 0, {}});
	st.files.erase(it);
	return 0;
}
int doRename(const char* a, const char* b) {
	sim::HostScope hs;
	sched::point(sched::P_SYSCALL);
	int err, err2;
	std::string p = resolve(a, err), q = resolve(b, err2);
	cur->event("rename %s %s", a, b);
	if (!err) err = err2;
	if (!err && (!st.files.count(p) || !st.files.count(parentOf(q)))) err = ENOENT;
	if (!err) err = decide(O_OTHER, p);
	if (err > 0) { errno = err; return -1; }
	st.openedForWrite.push_back(q);
	st.files[q] = st.files[p];
	st.files.erase(p);
	record({Mutation::RENAME, p, q, 0, {}});
	return 0;
}

constexpr std::size_t PG = 4096;
void* rawMmap(void* a, std::size_t l, int prot, int flags, int fd, off_t off) {
	long r = ::syscall(SYS_mmap, a, l, prot, flags, fd, off);
	return reinterpret_cast<void*>(r);
}
void* doMmap(void* want, std::size_t len, int prot, int flags, int fd, off_t off) {
	sim::HostScope hs;
	sched::point(sched::P_SYSCALL);
	auto* h = H(fd);
	if (!h) { errno = EBADF; return MAP_FAILED; }
	cur->event("mmap %s len=%zu off=%lld", h->path.c_str(), len, (long long) off);
	int err = decide(O_MMAP, h->path);
	if (!err && len == 0) err = EINVAL;
	if (!err && (off % PG) != 0) err = EINVAL;
	if (err > 0) { errno = err; return MAP_FAILED; }
	st.mmapUsed = true;
	std::size_t L = (len + PG - 1) / PG * PG;
	char* base;
	bool fixed = flags & MAP_FIXED;
	if (fixed) {
		base = static_cast<char*>(rawMmap(want, L, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0));
		if (base == MAP_FAILED) { errno = ENOMEM; return MAP_FAILED; }
	} else {
		// an unmapped page follows every mapping, as it may in a real address space
		base = static_cast<char*>(rawMmap(nullptr, L + PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (base == MAP_FAILED) { errno = ENOMEM; return MAP_FAILED; }
		::mprotect(base, L, PROT_READ | PROT_WRITE);
	}
	auto& d = h->f->data;
	std::size_t have = static_cast<std::size_t>(off) < d.size() ? d.size() - off : 0;
	std::size_t n = std::min(have, L);
	if (n) std::memcpy(base, d.data() + off, n);
	::mprotect(base, L, prot);
	std::size_t valid = (have + PG - 1) / PG * PG;
	if (valid < L) ::mprotect(base + valid, L - valid, PROT_NONE); // beyond end of file: SIGBUS on a real system
	if (!fixed) { maps.push_back({base, L, L + PG, h->path}); ++st.openMaps; }
	return base;
}
int doMunmap(void* a, std::size_t len, bool& handled) {
	handled = false;
	for (std::size_t i = 0; i < maps.size(); ++i) {
		if (maps[i].addr != a) continue;
		handled = true;
		std::size_t L = (len + PG - 1) / PG * PG;
		sim::HostScope hs;
		if (cur) cur->event("munmap %s", maps[i].path.c_str());
		if (len == 0) { errno = EINVAL; return -1; }
		if (L != maps[i].len && cur) {
			if (L < maps[i].len) { // partial: the rest stays mapped
				::syscall(SYS_munmap, a, L);
				maps[i].addr += L; maps[i].len -= L; maps[i].real -= L;
				return 0;
			}
			cur->violate("bad-unmap", "unmap of %zu bytes from a mapping of %zu bytes", L, maps[i].len);
		}
		::syscall(SYS_munmap, maps[i].addr, maps[i].real);
		maps.erase(maps.begin() + static_cast<std::ptrdiff_t>(i));
		--st.openMaps;
		return 0;
	}
	return -1;
}

// ---- stdio over the simulated descriptors ----
ssize_t ckRead(void* c, char* b, size_t n) { return doRead(static_cast<int>(reinterpret_cast<std::intptr_t>(c)), b, n); }
ssize_t ckWrite(void* c, const char* b, size_t n) {
	struct iovec v{const_cast<char*>(b), n};
	auto r = doWrite(static_cast<int>(reinterpret_cast<std::intptr_t>(c)), &v, 1);
	return r < 0 ? 0 : r;
}
int ckSeek(void* c, off64_t* off, int wh) {
	auto r = doSeek(static_cast<int>(reinterpret_cast<std::intptr_t>(c)), *off, wh);
	if (r < 0) return -1;
	*off = r;
	return 0;
}
int ckClose(void* c) { return doClose(static_cast<int>(reinterpret_cast<std::intptr_t>(c))); }

FILE* wrap(int fd, const char* mode) {
	sim::HostScope hs;
	cookie_io_functions_t io{ckRead, ckWrite, ckSeek, ckClose};
	FILE* f = ::fopencookie(reinterpret_cast<void*>(static_cast<std::intptr_t>(fd)), mode, io);
	if (f && H(fd)) H(fd)->stream = f;
	return f;
}
FILE* doFopen(const char* path, const char* mode) {
	int flags = 0;
	bool plus = std::strchr(mode, '+') != nullptr;
	switch (mode[0]) {
		case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
		case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
		case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
		default: errno = EINVAL; return nullptr;
	}
	if (std::strchr(mode, 'x')) flags |= O_EXCL;
	int fd = doOpen(path, flags);
	if (fd < 0) return nullptr;
	return wrap(fd, mode);
}
} // namespace

void reset() {
	sim::HostScope hs;
	finish();
	st = State{};
	auto d = std::make_shared<File>();
	d->dir = true;
	st.files["/"] = d;
	mkdirs("/sim/cwd");
	mkdirs("/etc");
	mkdirs("/tmp");
	st.active = true;
}
void finish() {
	sim::HostScope hs;
	for (auto& m : maps) ::syscall(SYS_munmap, m.addr, m.real);
	maps.clear();
	handles.clear();
	st.openHandles = st.openMaps = 0;
	st.active = false;
	st.files.clear();
}
void mkdirs(const std::string& path) {
	sim::HostScope hs;
	std::size_t i = 1;
	while (i <= path.size()) {
		auto j = path.find('/', i);
		if (j == std::string::npos) j = path.size();
		auto& e = st.files[path.substr(0, j)];
		if (!e) { e = std::make_shared<File>(); e->dir = true; }
		i = j + 1;
	}
}
std::string norm(const std::string& path) {
	std::string out, in = path;
	if (in.empty() || in[0] != '/') in = st.cwd + "/" + in;
	std::size_t i = 0;
	while (i < in.size()) {
		auto j = in.find('/', i);
		if (j == std::string::npos) j = in.size();
		std::string c = in.substr(i, j - i);
		i = j + 1;
		if (c.empty() || c == ".") continue;
		if (c == "..") { auto k = out.rfind('/'); out = k == std::string::npos ? "" : out.substr(0, k); continue; }
		out += '/';
		out += c;
	}
	return out.empty() ? "/" : out;
}
void put(const std::string& path, const Bytes& data) {
	sim::HostScope hs;
	auto p = norm(path);
	mkdirs(parentOf(p));
	auto f = std::make_shared<File>();
	f->data = data;
	st.files[p] = f;
}
std::shared_ptr<File> get(const std::string& path) {
	auto it = st.files.find(norm(path));
	return it == st.files.end() ? nullptr : it->second;
}
void setPlan(const Plan& p) { sim::HostScope hs; st.plan = p; st.counted = 0; st.fired = st.readFaults = st.openFaults = st.writeFaults = st.storeFaults = 0; }
void clearPlan() { setPlan(Plan{}); }
Files cloneFiles(const Files& from) {
	sim::HostScope hs;
	Files r;
	for (auto& [k, v] : from) r[k] = std::make_shared<File>(*v);
	return r;
}
Files cloneFiles() { return cloneFiles(st.files); }
void apply(Files& f, const Mutation& m, std::size_t bytes) {
	sim::HostScope hs;
	auto file = [&]() -> File& { auto& x = f[m.path]; if (!x) x = std::make_shared<File>(); return *x; };
	switch (m.k) {
		case Mutation::MKDIR: file().dir = true; break;
		case Mutation::CREATE: file(); break;
		case Mutation::TRUNC: file().data.clear(); break;
		case Mutation::WRITE: {
			auto& d = file().data;
			auto n = std::min(bytes, m.data.size());
			if (d.size() < m.off + n) d.resize(m.off + n);
			std::copy_n(m.data.begin(), n, d.begin() + static_cast<std::ptrdiff_t>(m.off));
			break;
		}
		case Mutation::UNLINK: f.erase(m.path); break;
		case Mutation::RENAME: f[m.path2] = f[m.path]; f.erase(m.path); break;
		case Mutation::SYNC: break;
	}
}
std::string handleReport() {
	std::string s;
	for (auto& h : handles) if (h) s += "[open " + h->path + "]";
	for (auto& m : maps) s += "[mapped " + m.path + "]";
	return s;
}
} // namespace vfs

// ---------------------------------------------------------------- libc entry points
using namespace vfs;
namespace {
template <typename F> F real(const char* n) {
	static_assert(sizeof(F) == sizeof(void*));
	void* p = ::dlsym(RTLD_NEXT, n);
	F f;
	std::memcpy(&f, &p, sizeof f);
	return f;
}
}
#define REAL(name) static auto realfn = real<decltype(&::name)>(#name)

extern "C" {
int open(const char* path, int flags, ...) {
	mode_t mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	if (on()) return doOpen(path, flags);
	return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open64(const char* path, int flags, ...) {
	mode_t mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	if (on()) return doOpen(path, flags);
	return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int __open_2(const char* path, int flags) { return open(path, flags, 0); }
int __open64_2(const char* path, int flags) { return open(path, flags, 0); }
int openat(int dir, const char* path, int flags, ...) {
	mode_t mode = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
	if (on() && (dir == AT_FDCWD || (path && path[0] == '/'))) return doOpen(path, flags);
	if (on() && isSim(dir) && H(dir)) return doOpen((H(dir)->path + "/" + path).c_str(), flags);
	return static_cast<int>(::syscall(SYS_openat, dir, path, flags, mode));
}
int openat64(int dir, const char* path, int flags, ...) { return openat(dir, path, flags, 0644); }
int __openat_2(int dir, const char* path, int flags) { return openat(dir, path, flags, 0644); }
int creat(const char* path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd) { return isSim(fd) ? doClose(fd) : static_cast<int>(::syscall(SYS_close, fd)); }
ssize_t read(int fd, void* b, size_t n) { return isSim(fd) ? doRead(fd, b, n) : ::syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return isSim(fd) ? doRead(fd, b, n, o) : ::syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t __pread_chk(int fd, void* b, size_t n, off_t o, size_t) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
	if (!isSim(fd)) return ::syscall(SYS_readv, fd, v, c);
	ssize_t t = 0;
	for (int i = 0; i < c; ++i) {
		auto r = doRead(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return t ? t : -1;
		t += r;
		if (static_cast<size_t>(r) < v[i].iov_len) break;
	}
	return t;
}
ssize_t write(int fd, const void* b, size_t n) {
	if (!isSim(fd)) return ::syscall(SYS_write, fd, b, n);
	struct iovec v{const_cast<void*>(b), n};
	return doWrite(fd, &v, 1);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
	if (!isSim(fd)) return ::syscall(SYS_pwrite64, fd, b, n, o);
	struct iovec v{const_cast<void*>(b), n};
	return doWrite(fd, &v, 1, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) { return isSim(fd) ? doWrite(fd, v, c) : ::syscall(SYS_writev, fd, v, c); }
off_t lseek(int fd, off_t o, int w) { return isSim(fd) ? doSeek(fd, o, w) : ::syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int stat(const char* p, struct stat* s) { return on() ? doStat(p, s) : static_cast<int>(::syscall(SYS_newfstatat, AT_FDCWD, p, s, 0)); }
int lstat(const char* p, struct stat* s) { return on() ? doStat(p, s) : static_cast<int>(::syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW)); }
int stat64(const char* p, struct stat64* s) { return stat(p, reinterpret_cast<struct stat*>(s)); }
int lstat64(const char* p, struct stat64* s) { return lstat(p, reinterpret_cast<struct stat*>(s)); }
int fstat(int fd, struct stat* s) { return isSim(fd) ? doFstat(fd, s) : static_cast<int>(::syscall(SYS_fstat, fd, s)); }
int fstat64(int fd, struct stat64* s) { return fstat(fd, reinterpret_cast<struct stat*>(s)); }
int fstatat(int d, const char* p, struct stat* s, int f) { return on() && d == AT_FDCWD ? doStat(p, s) : static_cast<int>(::syscall(SYS_newfstatat, d, p, s, f)); }
int access(const char* p, int m) {
	if (!on()) return static_cast<int>(::syscall(SYS_faccessat, AT_FDCWD, p, m));
	struct stat s;
	return doStat(p, &s);
}
int mkdir(const char* p, mode_t m) { return on() ? doMkdir(p) : static_cast<int>(::syscall(SYS_mkdirat, AT_FDCWD, p, m)); }
int mkdirat(int d, const char* p, mode_t m) { return on() && d == AT_FDCWD ? doMkdir(p) : static_cast<int>(::syscall(SYS_mkdirat, d, p, m)); }
int unlink(const char* p) { return on() ? doUnlink(p, false) : static_cast<int>(::syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int rmdir(const char* p) { return on() ? doUnlink(p, true) : static_cast<int>(::syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
int remove(const char* p) {
	if (on()) { auto f = vfs::get(p ? p : ""); return doUnlink(p, f && f->dir); }
	if (unlink(p) == 0) return 0;
	return errno == EISDIR ? rmdir(p) : -1;
}
int unlinkat(int d, const char* p, int f) { return on() && d == AT_FDCWD ? doUnlink(p, f & AT_REMOVEDIR) : static_cast<int>(::syscall(SYS_unlinkat, d, p, f)); }
int rename(const char* a, const char* b) { return on() ? doRename(a, b) : static_cast<int>(::syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b)); }
int link(const char* a, const char* b) { if (on()) { st.touched.insert(vfs::norm(b)); errno = EPERM; return -1; } return static_cast<int>(::syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)); }
int symlink(const char* a, const char* b) { if (on()) { st.touched.insert(vfs::norm(b)); errno = EPERM; return -1; } return static_cast<int>(::syscall(SYS_symlinkat, a, AT_FDCWD, b)); }
int fsync(int fd) {
	if (!isSim(fd)) return static_cast<int>(::syscall(SYS_fsync, fd));
	sim::HostScope hs;
	auto* h = H(fd);
	if (!h) { errno = EBADF; return -1; }
	int err = decide(O_OTHER, h->path);
	if (err > 0) { errno = err; return -1; }
	st.journal.push_back({Mutation::SYNC, h->path, "", 0, {}});
	return 0;
}
int fdatasync(int fd) { return isSim(fd) ? fsync(fd) : static_cast<int>(::syscall(SYS_fdatasync, fd)); }
int ftruncate(int fd, off_t n) {
	if (!isSim(fd)) return static_cast<int>(::syscall(SYS_ftruncate, fd, n));
	sim::HostScope hs;
	auto* h = H(fd);
	if (!h || !h->writes) { errno = EBADF; return -1; }
	int err = decide(O_WRITE, h->path);
	if (err > 0) { errno = err; return -1; }
	h->f->data.resize(static_cast<size_t>(n));
	record({Mutation::TRUNC, h->path, "", static_cast<size_t>(n), {}});
	return 0;
}
int truncate(const char* p, off_t n) {
	if (!on()) return static_cast<int>(::syscall(SYS_truncate, p, n));
	int fd = doOpen(p, O_WRONLY);
	if (fd < 0) return -1;
	int r = ftruncate(fd, n);
	close(fd);
	return r;
}
void* mmap(void* a, size_t l, int prot, int flags, int fd, off_t o) {
	if (isSim(fd)) {
		void* p = doMmap(a, l, prot, flags, fd, o);
		if (p != MAP_FAILED && sched::enabled) race::forget(p, l);
		return p;
	}
	if (sim::inLib && cur && on() && (flags & MAP_ANONYMOUS)) {
		sim::HostScope hs;
		sched::point(sched::P_SYSCALL);
		cur->event("mmap anonymous len=%zu", l);
		int err = decide(O_MMAP, "(anonymous)");
		if (err > 0) { errno = ENOMEM; return MAP_FAILED; }
	}
	long r = ::syscall(SYS_mmap, a, l, prot, flags, fd, o);
	if (sim::inLib && cur && reinterpret_cast<void*>(r) != MAP_FAILED && !(flags & MAP_FIXED)) {
		sim::HostScope hs;
		std::size_t L = (l + 4095) / 4096 * 4096;
		maps.push_back({reinterpret_cast<char*>(r), L, L, "(anonymous)"});
		++st.openMaps;
	}
	if (reinterpret_cast<void*>(r) != MAP_FAILED && sched::enabled) race::forget(reinterpret_cast<void*>(r), l);
	return reinterpret_cast<void*>(r);
}
void* mmap64(void* a, size_t l, int prot, int flags, int fd, off_t o) { return mmap(a, l, prot, flags, fd, o); }
int munmap(void* a, size_t l) {
	bool handled = false;
	int r = doMunmap(a, l, handled);
	if (handled) return r;
	if (cur && sim::inLib) { sim::HostScope hs; cur->violate("bad-unmap", "unmap of memory that is not mapped"); errno = EINVAL; return -1; }
	return static_cast<int>(::syscall(SYS_munmap, a, l));
}
int madvise(void* a, size_t l, int adv) {
	for (auto& m : maps) if (m.addr == a) return 0;
	return static_cast<int>(::syscall(SYS_madvise, a, l, adv));
}
int posix_madvise(void* a, size_t l, int adv) { return madvise(a, l, adv) == 0 ? 0 : errno; }
int posix_fadvise(int fd, off_t o, off_t n, int adv) { return isSim(fd) ? 0 : static_cast<int>(::syscall(SYS_fadvise64, fd, o, n, adv)); }
int posix_fadvise64(int fd, off64_t o, off64_t n, int adv) { return posix_fadvise(fd, o, n, adv); }
FILE* fopen(const char* p, const char* m) {
	if (on()) return doFopen(p, m);
	static auto r = real<FILE* (*)(const char*, const char*)>("fopen");
	return r(p, m);
}
FILE* fopen64(const char* p, const char* m) {
	if (on()) return doFopen(p, m);
	static auto r = real<FILE* (*)(const char*, const char*)>("fopen64");
	return r(p, m);
}
FILE* fdopen(int fd, const char* m) {
	if (isSim(fd)) return wrap(fd, m);
	static auto r = real<FILE* (*)(int, const char*)>("fdopen");
	return r(fd, m);
}
int fileno(FILE* f) {
	for (std::size_t i = 0; i < handles.size(); ++i) if (handles[i] && handles[i]->stream == f) return fdBase + static_cast<int>(i);
	static auto r = real<int (*)(FILE*)>("fileno");
	return r(f);
}
char* getcwd(char* b, size_t n) {
	if (on()) {
		if (!b) return nullptr;
		if (st.cwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
		std::memcpy(b, st.cwd.c_str(), st.cwd.size() + 1);
		return b;
	}
	return ::syscall(SYS_getcwd, b, n) > 0 ? b : nullptr;
}
ssize_t readlink(const char* p, char* b, size_t n) { if (on()) { errno = EINVAL; return -1; } return ::syscall(SYS_readlinkat, AT_FDCWD, p, b, n); }
char* realpath(const char* p, char* out) {
	if (on()) {
		int err;
		auto s = vfs::norm(p);
		struct stat sb;
		err = doStat(p, &sb);
		if (err) return nullptr;
		if (!out) out = static_cast<char*>(std::malloc(4096));
		std::memcpy(out, s.c_str(), s.size() + 1);
		return out;
	}
	static auto r = real<char* (*)(const char*, char*)>("realpath");
	return r(p, out);
}
int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req);
	void* a = va_arg(ap, void*);
	va_end(ap);
	if (isSim(fd)) { errno = ENOTTY; return -1; }
	return static_cast<int>(::syscall(SYS_ioctl, fd, req, a));
}
int poll(struct pollfd* f, nfds_t n, int t) {
	for (nfds_t i = 0; i < n; ++i) if (isSim(f[i].fd)) { f[i].revents = POLLIN; return 1; }
	struct timespec ts{t / 1000, (t % 1000) * 1000000L};
	return static_cast<int>(::syscall(SYS_ppoll, f, n, t < 0 ? nullptr : &ts, nullptr, 0));
}
}
