// parts of the repository which need libraries this sandbox does not have, and which no check exercises
#include <memory>
#include <string>
#include <map>
#include <vnx/vnx.h>
#include <mmx/http_request.h>
namespace mmx {
void http_request_file(const std::string&, const std::string&, const std::string&) { throw std::runtime_error("no network"); }
}
