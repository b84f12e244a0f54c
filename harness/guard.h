// For drivers whose code changes the file system: an unprivileged user, a scratch directory, and stand-ins that refuse
// everything outside.
#pragma once
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/syscall.h>
static string root, base;   // the scratch directory; the folder of the current session, with a slash
static int escapes = 0, session = 0;
static bool inside(const char* p) {
	string s(p);
	if (s.compare(0, root.size(), root) == 0 && s.find("/../") == string::npos && (s.size() < 3 || s.compare(s.size() - 3, 3, "/..") != 0)) return true;
	++escapes; errno = EPERM; return false;
}
extern "C" {
int unlink(const char* p) { return inside(p) ? syscall(SYS_unlinkat, AT_FDCWD, p, 0) : -1; }
int rmdir(const char* p) { return inside(p) ? syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR) : -1; }
int remove(const char* p) { if (!inside(p)) return -1; int r = unlink(p); return r != 0 && errno == EISDIR ? rmdir(p) : r; }
int rename(const char* a, const char* b) { return inside(a) && inside(b) ? syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0) : -1; }
int mkdir(const char* p, mode_t m) { return inside(p) ? syscall(SYS_mkdirat, AT_FDCWD, p, m) : -1; }
}
static void wipe(const string& d) {   // d ends with a slash
	DIR* h = opendir(d.c_str());
	if (!h) return;
	vector<string> files, dirs;
	while (dirent* e = readdir(h)) {
		string s(e->d_name); struct stat st;
		if (s == "." || s == "..") continue;
		lstat((d + s).c_str(), &st);
		(S_ISDIR(st.st_mode) ? dirs : files).push_back(d + s);
	}
	closedir(h);
	for (size_t i = 0; i < files.size(); ++i) unlink(files[i].c_str());
	for (size_t i = 0; i < dirs.size(); ++i) { wipe(dirs[i] + "/"); rmdir(dirs[i].c_str()); }
}
static void fresh() {
	if (!base.empty()) { wipe(base); rmdir(base.substr(0, base.size() - 1).c_str()); }
	base = root + std::to_string(++session) + "/";
	mkdir(base.c_str(), 0755); escapes = 0;
}
static bool confine(const char* name) {
	root = string(getenv("SCRATCH")) + "/" + name + "/";
	if (!freopen("/dev/null", "w", stderr)) return false;
	mkdir(root.c_str(), 0755);
	if (geteuid() == 0) {
		if (chown(root.c_str(), 65534, 65534) || chmod(getenv("SCRATCH"), 0755)) return false;
		if (setgroups(0, NULL) || setgid(65534) || setuid(65534)) return false;
	}
	return true;
}
