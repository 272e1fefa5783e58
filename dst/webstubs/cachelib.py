"""Replacement for cachelib: as the real one, values are pickled and expire;
the clock is the simulated one."""
import time
import pickle

YIELD = None


class BaseCache:
	def __init__(self, default_timeout=300):
		self.default_timeout = default_timeout


class SimpleCache(BaseCache):
	def __init__(self, threshold=500, default_timeout=300):
		super().__init__(default_timeout)
		self._cache = {}
		self._threshold = threshold

	def _expires(self, timeout):
		if timeout is None:
			timeout = self.default_timeout
		return time.time() + timeout if timeout > 0 else timeout

	def _prune(self):
		if len(self._cache) > self._threshold:
			now = time.time()
			for k in [k for k, (e, _) in self._cache.items()
					if e != 0 and e < now]:
				self._cache.pop(k, None)
			if len(self._cache) > self._threshold:
				for k in sorted(self._cache, key=lambda k: self._cache[k][0])[
						:len(self._cache) // 3]:
					self._cache.pop(k, None)

	def get(self, key):
		if YIELD is not None:
			YIELD('cacheget')
		try:
			expires, value = self._cache[key]
			if expires == 0 or expires > time.time():
				return pickle.loads(value)
		except (KeyError, pickle.PickleError):
			return None

	def set(self, key, value, timeout=None):
		if YIELD is not None:
			YIELD('cacheset')
		expires = self._expires(timeout)
		self._prune()
		self._cache[key] = (expires, pickle.dumps(value,
				pickle.HIGHEST_PROTOCOL))
		return True

	def add(self, key, value, timeout=None):
		if key in self._cache:
			return False
		return self.set(key, value, timeout)

	def delete(self, key):
		return self._cache.pop(key, None) is not None

	def has(self, key):
		try:
			expires, _ = self._cache[key]
			return expires == 0 or expires > time.time()
		except KeyError:
			return False

	def clear(self):
		self._cache.clear()
		return True

	def get_many(self, *keys):
		return [self.get(k) for k in keys]

	def get_dict(self, *keys):
		return dict(zip(keys, self.get_many(*keys)))


class NullCache(BaseCache):
	def get(self, key):
		return None

	def set(self, key, value, timeout=None):
		return True
	add = set

	def delete(self, key):
		return True

	def clear(self):
		return True

	def has(self, key):
		return False
