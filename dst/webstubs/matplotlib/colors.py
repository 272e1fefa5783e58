"""Minimal replacement: linear scales."""


class Normalize:
	def __init__(self, vmin=None, vmax=None, clip=False):
		self.vmin, self.vmax = vmin, vmax

	def __call__(self, val):
		if self.vmin == self.vmax:
			return 0.0
		if self.vmin > self.vmax:
			raise ValueError('minvalue must be less than or equal to maxvalue')
		return (val - self.vmin) / (self.vmax - self.vmin)
