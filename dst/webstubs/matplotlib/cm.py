"""Minimal replacement: a single color map."""
from . import colors  # NB: available as matplotlib.colors, as in the original


class ScalarMappable:
	def __init__(self, norm=None, cmap=None):
		self.norm, self.cmap = norm, cmap

	def to_rgba(self, val, alpha=None, bytes=False):
		x = min(1.0, max(0.0, self.norm(float(val))))
		res = 1.0, 1.0 - x * 0.75, 0.9 - x * 0.9, 1.0
		return tuple(int(255 * a) for a in res) if bytes else res
