// vnxlite: files and directories. Every state-changing operation goes through g_fs_hook,
// so that a harness can record the exact sequence of OS-level effects (crash-point enumeration).
#ifndef VNXLITE_FILE_H_
#define VNXLITE_FILE_H_

#include <vnx/core.h>

namespace vnx {

struct fs_hook_t {
	virtual ~fs_hook_t() {}
	// called after the operation took effect
	virtual void on_create(const std::string& path) {}					// file came into existence (empty)
	virtual void on_truncate(const std::string& path) {}				// set to size 0
	virtual void on_write(const std::string& path, int64_t offset, const void* data, size_t len) {}
	virtual void on_rename(const std::string& from, const std::string& to) {}
	virtual void on_remove(const std::string& path) {}
	virtual void on_mkdir(const std::string& path) {}
	// called before the operation, may throw to simulate an I/O error
	virtual void before_write(const std::string& path, int64_t offset, size_t len) {}
};
extern fs_hook_t* g_fs_hook;

class FileStream_ : public InputStream, public OutputStream {
public:
	~FileStream_() { close(); }
	void open(const std::string& path, const std::string& mode);
	void close();
	size_t read(void* buf, size_t len) override;
	void write(const void* buf, size_t len) override;
	int fd = -1;
	bool append = false;
	int64_t pos = 0;
	std::string path;
};

class File {
public:
	File() : in(&stream), out(&stream) {}
	File(const std::string& path_) : in(&stream), out(&stream), path(path_) {}
	~File() { try { close(); } catch(...) {} }
	File(const File&) = delete;
	File& operator=(const File&) = delete;

	void open(const std::string& path_, const std::string& mode) { path = path_; open(mode); }
	void open(const std::string& mode);
	void close();
	void flush() { if(is_open()) out.flush(); }
	bool is_open() const { return stream.fd >= 0; }
	void lock_exclusive() {}
	void seek_to(int64_t pos);
	void seek_begin() { seek_to(0); }
	void seek_end();
	int get_handle() const { if(stream.fd < 0) throw std::logic_error("vnx::File: not open"); return stream.fd; }
	const std::string& get_path() const { return path; }
	std::string get_name(bool with_extension = true) const;
	std::string get_extension() const;
	bool exists() const;
	void remove();
	void rename(const std::string& new_path);
	int64_t last_write_time() const;
	uint64_t file_size() const;

private:
	FileStream_ stream;
public:
	TypeInput in;
	TypeOutput out;
private:
	std::string path;
};

class FileSectionInputStream : public InputStream {
public:
	FileSectionInputStream(int handle, int64_t offset, int64_t length = -1, size_t buffer_size = 0)
		: fd(handle), pos(offset), remain(length), chunk(buffer_size) {}
	size_t read(void* buf, size_t len) override;
private:
	int fd;
	int64_t pos, remain;
	size_t chunk;
};

class Directory {
public:
	Directory(const std::string& path_) : path(path_) {}
	bool exists() const;
	bool create();
	const std::string& get_path() const { return path; }
	std::vector<std::shared_ptr<File>> files() const;
	std::vector<std::shared_ptr<Directory>> directories() const;
	std::string get_name() const { const auto p = path.find_last_of('/'); return p == std::string::npos ? path : path.substr(p + 1); }
private:
	std::string path;
};

std::shared_ptr<Value> read_from_file(const std::string& path);
template<typename T> std::shared_ptr<T> read_from_file(const std::string& path) { return std::dynamic_pointer_cast<T>(read_from_file(path)); }
void write_to_file(const std::string& path, std::shared_ptr<const Value> value);

template<typename T> void write_generic(TypeOutput& out, const T& value) { vnx::write(out, Variant(value), nullptr, nullptr); }
template<typename T> void read_generic(TypeInput& in, T& value) { read_dynamic(in, value); }

} // vnx
#endif
