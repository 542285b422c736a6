#include <vnx/file.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <cerrno>

namespace vnx {

fs_hook_t* g_fs_hook = nullptr;

void FileStream_::open(const std::string& p, const std::string& mode) {
	close();
	path = p;
	append = false;
	pos = 0;
	const bool existed = ::access(p.c_str(), F_OK) == 0;
	int flags = 0;
	if(mode == "rb") flags = O_RDONLY;
	else if(mode == "rb+" || mode == "r+b") flags = O_RDWR;
	else if(mode == "wb") flags = O_WRONLY | O_CREAT | O_TRUNC;
	else if(mode == "wb+") flags = O_RDWR | O_CREAT | O_TRUNC;
	else if(mode == "ab") { flags = O_WRONLY | O_CREAT | O_APPEND; append = true; }
	else throw std::logic_error("vnx::File: invalid mode " + mode);
	fd = ::open(p.c_str(), flags | O_CLOEXEC, 0644);
	if(fd < 0) throw std::runtime_error("fopen('" + p + "') failed with: " + std::string(::strerror(errno)));
	if(append) pos = ::lseek(fd, 0, SEEK_END);
	if(g_fs_hook) {
		if(flags & O_CREAT) {
			if(!existed) g_fs_hook->on_create(p);
			else if(flags & O_TRUNC) g_fs_hook->on_truncate(p);
		}
	}
}
void FileStream_::close() {
	if(fd >= 0) { ::close(fd); fd = -1; }
}
size_t FileStream_::read(void* buf, size_t len) {
	if(fd < 0) throw std::logic_error("vnx::File: not open");
	const auto n = ::pread(fd, buf, len, pos);
	if(n < 0) throw std::runtime_error("fread() failed with: " + std::string(::strerror(errno)));
	pos += n;
	return n;
}
void FileStream_::write(const void* buf, size_t len) {
	if(fd < 0) throw std::logic_error("vnx::File: not open");
	if(append) pos = ::lseek(fd, 0, SEEK_END);
	if(g_fs_hook) g_fs_hook->before_write(path, pos, len);
	size_t done = 0;
	while(done < len) {
		const auto n = append ? ::write(fd, (const char*)buf + done, len - done) : ::pwrite(fd, (const char*)buf + done, len - done, pos + done);
		if(n < 0) throw std::runtime_error("fwrite() failed with: " + std::string(::strerror(errno)));
		done += n;
	}
	if(g_fs_hook) g_fs_hook->on_write(path, pos, buf, len);
	pos += len;
}

void File::open(const std::string& mode) {
	if(is_open()) close();
	stream.open(path, mode);
	in.reset(0);
	out.reset(stream.pos);
}
void File::close() {
	if(is_open()) {
		try { out.flush(); } catch(...) { stream.close(); throw; }
		stream.close();
	}
	in.reset(); out.reset();
}
void File::seek_to(int64_t p) {
	if(!is_open()) throw std::logic_error("vnx::File: not open");
	out.flush();
	stream.pos = p;
	in.reset(p); out.reset(p);
}
void File::seek_end() {
	if(!is_open()) throw std::logic_error("vnx::File: not open");
	out.flush();
	seek_to(::lseek(stream.fd, 0, SEEK_END));
}
std::string File::get_name(bool ext) const {
	const auto p = path.find_last_of('/');
	auto n = p == std::string::npos ? path : path.substr(p + 1);
	if(!ext) { const auto d = n.find_last_of('.'); if(d != std::string::npos) n = n.substr(0, d); }
	return n;
}
std::string File::get_extension() const {
	const auto n = get_name();
	const auto d = n.find_last_of('.');
	return d == std::string::npos ? "" : n.substr(d);
}
bool File::exists() const { return ::access(path.c_str(), F_OK) == 0; }
void File::remove() {
	close();
	if(::unlink(path.c_str())) throw std::runtime_error("remove('" + path + "') failed");
	if(g_fs_hook) g_fs_hook->on_remove(path);
}
void File::rename(const std::string& np) {
	close();
	if(::rename(path.c_str(), np.c_str())) throw std::runtime_error("rename('" + path + "') failed");
	if(g_fs_hook) g_fs_hook->on_rename(path, np);
	path = np;
}
int64_t File::last_write_time() const { struct stat st; if(::stat(path.c_str(), &st)) throw std::runtime_error("stat failed"); return st.st_mtime; }
uint64_t File::file_size() const { struct stat st; if(::stat(path.c_str(), &st)) throw std::runtime_error("stat failed"); return st.st_size; }

size_t FileSectionInputStream::read(void* buf, size_t len) {
	if(remain >= 0) len = std::min<uint64_t>(len, remain);
	if(chunk) len = std::min(len, chunk);
	if(!len) return 0;
	const auto n = ::pread(fd, buf, len, pos);
	if(n < 0) throw std::runtime_error("pread() failed with: " + std::string(::strerror(errno)));
	pos += n;
	if(remain >= 0) remain -= n;
	return n;
}

bool Directory::exists() const { struct stat st; return ::stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
bool Directory::create() {
	if(path.empty() || exists()) return false;
	std::string cur;
	for(const auto& part : string_split(path, '/')) {
		cur += part + "/";
		if(part.empty()) continue;
		const auto dir = cur.substr(0, cur.size() - 1);
		if(::access(dir.c_str(), F_OK)) {
			if(::mkdir(dir.c_str(), 0755) == 0) { if(g_fs_hook) g_fs_hook->on_mkdir(dir); }
			else if(errno != EEXIST) throw std::runtime_error("mkdir('" + dir + "') failed");
		}
	}
	return true;
}
std::vector<std::shared_ptr<File>> Directory::files() const {
	std::vector<std::string> names;
	if(auto* d = ::opendir(path.c_str())) {
		while(auto* e = ::readdir(d)) {
			const std::string n = e->d_name;
			struct stat st;
			if(::stat((path + '/' + n).c_str(), &st) == 0 && S_ISREG(st.st_mode)) names.push_back(n);
		}
		::closedir(d);
	} else throw std::runtime_error("opendir('" + path + "') failed");
	std::sort(names.begin(), names.end());
	std::vector<std::shared_ptr<File>> res;
	for(auto& n : names) res.push_back(std::make_shared<File>(path + '/' + n));
	return res;
}

std::vector<std::shared_ptr<Directory>> Directory::directories() const {
	std::vector<std::shared_ptr<Directory>> res;
	if(auto* d = ::opendir(path.c_str())) {
		while(auto* e = ::readdir(d)) {
			const std::string n = e->d_name;
			struct stat st;
			if(n != "." && n != ".." && ::stat((path + '/' + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) res.push_back(std::make_shared<Directory>(path + '/' + n));
		}
		::closedir(d);
	}
	return res;
}

std::shared_ptr<Value> read_from_file(const std::string& path) {
	File file(path);
	if(!file.exists()) return nullptr;
	file.open("rb");
	return vnx::read(file.in);
}
void write_to_file(const std::string& path, std::shared_ptr<const Value> value) {
	File file(path);
	file.open("wb");
	vnx::write(file.out, value);
	file.close();
}

} // vnx
