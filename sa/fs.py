"""Monitor base class that models files: which path names an analysed
function creates, opens, writes, removes and renames."""
from .absint import Monitor, K, NONE, is_k, kval, show

WRITE_CHARS = set("wax+")

OPENERS = {"open", "io.open", "codecs.open"}
REMOVERS = {"os.remove", "os.unlink"}
RENAMERS = {"os.rename", "os.replace", "shutil.move"}


def mode_of(args, kw, pos=1):
	m = args[pos] if len(args) > pos else kw.get("mode")
	if m is None:
		return "r"
	return kval(m, "?") if is_k(m) else "?"


def writes(mode):
	return mode == "?" or bool(set(mode) & WRITE_CHARS)


def handle_path(t):
	while t and t[0] == "prev":
		t = t[1]
	return t[2] if t and t[0] == "h" else None


def base(t):
	while t and t[0] == "prev":
		t = t[1]
	return t


class FSMonitor(Monitor):
	events = ("open:w", "tempfile.mkstemp", "tempfile.mktemp",
	          "tempfile.mkdtemp", "os.unlink", "os.remove", "os.rename",
	          "os.replace", "os.rmdir", "os.removedirs", "os.fdopen",
	          "shutil.rmtree", "shutil.move", "shutil.copyfile",
	          "shutil.copy", "shutil.copy2", "shutil.copyfileobj",
	          "tempfile.NamedTemporaryFile", "os.mkdir", "os.makedirs")

	# -- hooks for subclasses -------------------------------------------
	def fs_open(self, I, st, path, mode, h, node):
		pass

	def fs_close(self, I, st, h, node):
		pass

	def fs_write(self, I, st, h, data, node):
		pass

	def fs_temp(self, I, st, path, kind, node):
		pass

	def fs_remove(self, I, st, path, node):
		pass

	def fs_rename(self, I, st, src, dst, node, name):
		pass

	def fs_rename_failed(self, I, st, src, dst):
		pass

	def fs_read(self, I, st, h, args, node):
		pass

	def is_open(self, st, h):
		"""closing a closed file does nothing and can't fail"""
		return True

	def exists(self, I, st, path):
		return None

	def other(self, I, st, name, recv, args, kw, node):
		return None

	# ---------------------------------------------------------------------
	def _raise(self, st, exc="OSError"):
		if self.raise_mode == "none":
			return []
		if self.single_fault and any(f.exc is not None for f in st.frames):
			return []
		return [("raise", st.copy(), ("exc", exc))]

	def _new_handle(self, I, st, path, mode, node):
		h = st.fresh(("h", I.site(st, node), path, mode))
		self.fs_open(I, st, path, mode, h, node)
		return h

	def call(self, I, st, name, recv, args, kw, node):
		r = self.other(I, st, name, recv, args, kw, node)
		if r is not None:
			return r
		if name in ("os.path.isfile", "os.path.exists", "os.path.lexists") \
				and args:
			e = self.exists(I, st, args[0])
			if e is not None:
				return [("ok", st, K(e))]
			return [("ok", st, ("c", name, (args[0],)))]
		if name in OPENERS and args:
			mode = mode_of(args, kw)
			res = self._raise(st)
			h = self._new_handle(I, st, args[0], mode, node)
			return res + [("ok", st, h)]
		if name == "os.fdopen" and args:
			mode = mode_of(args, kw)
			fd = args[0]
			path = fd[2] if fd[0] == "fd" else fd
			h = self._new_handle(I, st, path, mode, node)
			st.mon.pop(("fd", fd), None)
			return [("ok", st, h)]
		if name == "tempfile.mkstemp":
			res = self._raise(st)
			site = I.site(st, node)
			p = st.fresh(("tmp", site))
			fd = ("fd", site, p)
			self.fs_temp(I, st, p, "file", node)
			st.heap[(p, "$args")] = ("tup",) + tuple(args) + tuple(
				("kw", k, v) for k, v in sorted(kw.items()))
			return res + [("ok", st, ("tup", fd, p))]
		if name in ("tempfile.mktemp", "tempfile.mkdtemp"):
			kind = "dir" if name.endswith("mkdtemp") else "name"
			res = self._raise(st) if kind == "dir" else []
			p = st.fresh(("tmp" if kind == "dir" else "tmpname",
			              I.site(st, node)))
			self.fs_temp(I, st, p, kind, node)
			return res + [("ok", st, p)]
		if name in REMOVERS and args:
			res = self._raise(st)
			self.fs_remove(I, st, args[0], node)
			return res + [("ok", st, NONE)]
		if name in RENAMERS and len(args) >= 2:
			res = self._raise(st)
			for _k, s2, _v in res:
				self.fs_rename_failed(I, s2, args[0], args[1])
			self.fs_rename(I, st, args[0], args[1], node, name)
			return res + [("ok", st, NONE)]
		if name in ("os.close",) and args:
			self.fs_close(I, st, args[0], node)
			return [("ok", st, NONE)]
		if recv is not None and base(recv)[0] == "h":
			if name == ".write":
				res = self._raise(st)
				self.fs_write(I, st, recv, args[0] if args else NONE, node)
				return res + [("ok", st, NONE)]
			if name == ".writelines":
				res = self._raise(st)
				self.fs_write(I, st, recv, args[0] if args else NONE, node)
				return res + [("ok", st, NONE)]
			if name == ".close":
				res = []
				if writes(base(recv)[3]) and self.is_open(st, recv):
					res = self._raise(st)
					for _k, s2, _v in res:
						self.fs_close(I, s2, recv, node)
				self.fs_close(I, st, recv, node)
				return res + [("ok", st, NONE)]
			if name == ".read":
				self.fs_read(I, st, recv, args, node)
		return None

	def exit_with(self, I, st, val, node):
		if val and base(val)[0] == "h":
			self.fs_close(I, st, val, node)
