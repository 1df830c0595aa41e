// Simulated hierarchical data store: files survive the processes that wrote them.
#pragma once
#include "core.hpp"
struct Rank;
struct H5Write { u64 seq; long step; int rank, group; std::string path; std::vector<size_t> off, cnt; bool ok; };
struct H5Set { std::vector<size_t> dims, maxd, chunk; std::vector<double> data; std::vector<u16> wc; size_t frame() const { size_t f = 1; for (size_t i = 1; i < dims.size(); ++i) f *= dims[i]; return f; } };
struct H5File {
  std::string path;
  std::set<std::string> groups;
  std::map<std::string, H5Set> sets;
  std::map<std::string, std::pair<std::string, std::string>> attrs;   // name -> (type, value); empty type = created, never written
  int opens = 0;              // live handles
  bool unclean = false;       // a writer died without closing it
  bool dirty = false;         // changes the library still holds in its cache
  u64 created_seq = 0;
};
struct H5Op { std::string kind, path; int rank; bool failed; };
extern std::map<std::string, H5File> disk;        // key: group-qualified path
extern std::vector<H5Write> h5_writes;
extern std::vector<H5Op> h5_fail_log;             // operations that were made to fail
extern u64 h5_opno;                               // mutating operations so far (main job)
extern std::set<std::string> dirs;
std::string disk_key(int group, const std::string &path);
bool h5_open_by(Rank *);
u64 h5_hash(const H5File &f, bool with_attrs = true);
void h5_process_end(Rank *, bool graceful);
