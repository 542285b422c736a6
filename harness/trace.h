// An image of a directory, kept up to date with every file operation of the code under test; any moment of it can be kept as a crash point.
#ifndef VERIF_TRACE_H_
#define VERIF_TRACE_H_
#include <vnx/file.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <mutex>
#include <functional>
#include <map>
#include <cstring>
#include "common.h"

namespace verif {
typedef std::map<std::string, std::shared_ptr<std::string>> image_t;

struct DirTrace : vnx::fs_hook_t {
	std::mutex mutex;
	std::string root;
	image_t image;		// files may be shared with images which were taken: never written to while shared
	std::function<void(const image_t&, const char* op)> on_state;
	Rng cut{7}; bool torn = true;
	uint64_t ops = 0;
	bool mine(const std::string& p) const { return !root.empty() && p.compare(0, root.size(), root) == 0; }
	void state(const char* op) { ops++; if(on_state) on_state(image, op); }
	void load() {
		std::lock_guard<std::mutex> l(mutex);
		image.clear();
		for(auto& e : std::filesystem::recursive_directory_iterator(root)) if(e.is_regular_file() && e.path().filename() != "debug.log") { std::ifstream f(e.path(), std::ios::binary); std::stringstream s; s << f.rdbuf(); image[e.path().string()] = std::make_shared<std::string>(s.str()); }
	}
	void on_create(const std::string& p) override { if(!mine(p)) return; std::lock_guard<std::mutex> l(mutex); image[p] = std::make_shared<std::string>(); state("create"); }
	void on_truncate(const std::string& p) override { if(!mine(p)) return; std::lock_guard<std::mutex> l(mutex); image[p] = std::make_shared<std::string>(); state("truncate"); }
	void on_rename(const std::string& a, const std::string& b) override { if(!mine(a)) return; std::lock_guard<std::mutex> l(mutex); image[b] = image[a]; if(a != b) image.erase(a); state("rename"); }
	void on_remove(const std::string& p) override { if(!mine(p)) return; std::lock_guard<std::mutex> l(mutex); image.erase(p); state("remove"); }
	void on_write(const std::string& p, int64_t pos, const void* data, size_t len) override {
		if(!mine(p) || !len) return;
		std::lock_guard<std::mutex> l(mutex);
		auto& f = image[p];
		auto put = [&](size_t n) {
			if(!f) f = std::make_shared<std::string>(); else if(f.use_count() > 1) f = std::make_shared<std::string>(*f);
			if(f->size() < pos + n) f->resize(pos + n);
			::memcpy(&(*f)[pos], data, n);
		};
		if(torn && len > 1 && cut.chance(1, 4)) { put(cut.range(1, len - 1)); state("torn write"); }
		put(len); state("write");
	}
};
inline void materialise(const image_t& img, const std::string& from, const std::string& to) {
	std::filesystem::create_directories(to);
	for(auto& e : img) { const auto p = to + e.first.substr(from.size()); std::filesystem::create_directories(std::filesystem::path(p).parent_path()); std::ofstream f(p, std::ios::binary); f.write(e.second->data(), e.second->size()); }
}

} // verif
#endif
