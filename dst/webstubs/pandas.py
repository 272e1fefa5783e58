"""Minimal replacement for the parts of pandas used by web/treesearch.py.

Tables are ordered mappings of columns; the string representations list all
values (instead of a formatted table of statistics)."""


def _isnan(x):
	return x != x


def _mean(values):
	values = [a for a in values if not _isnan(a)]
	return sum(values) / len(values) if values else float('nan')


class _Loc:
	def __init__(self, series):
		self._series = series

	def __getitem__(self, key):
		s = self._series
		if isinstance(key, Series):
			pairs = [(a, b) for a, b in zip(s.index, s.values)
					if key._map().get(a)]
			return Series([b for _, b in pairs], [a for a, _ in pairs])
		if isinstance(key, (list, tuple)):
			return Series([s._map()[a] for a in key], list(key))
		return s._map()[key]


class Series:
	def __init__(self, data=(), index=None, name=None):
		if isinstance(data, Series):
			data = data._map()
		if isinstance(data, dict):
			if index is None:
				index = list(data)
			data = [data.get(a, float('nan')) for a in index]
		self.values = list(data)
		self.index = list(range(len(self.values)) if index is None else index)
		if len(self.values) != len(self.index):
			raise ValueError('Length of values (%d) does not match length of '
					'index (%d)' % (len(self.values), len(self.index)))
		self.name = name

	def _map(self):
		return dict(zip(self.index, self.values))

	def unique(self):
		return list(dict.fromkeys(self.values))

	def nunique(self):
		return len(set(self.values))

	def mean(self):
		return _mean(self.values)

	def __eq__(self, other):
		return Series([a == other for a in self.values], self.index)

	__hash__ = None

	def __len__(self):
		return len(self.values)

	def __iter__(self):
		return iter(self.values)

	@property
	def loc(self):
		return _Loc(self)


class _Description:
	def __init__(self, table):
		self._table = table

	def to_string(self, float_format=repr):
		return '\n'.join('%s: %s' % (a, ' '.join(float_format(x)
				if isinstance(x, float) else str(x) for x in b))
				for a, b in self._table)


class _Groups:
	def __init__(self, df, name):
		self._df, self._name = df, name

	def describe(self):
		df = self._df
		keys = df[self._name].values
		return _Description([('%s %s' % (cat, col), [x for x, y in zip(
				df[col].values, keys) if y == cat])
				for cat in sorted(set(keys)) for col in df.columns
				if col != self._name])


class DataFrame:
	def __init__(self, data=None, index=None):
		self.index = list(index if index is not None else ())
		self._cols = {}
		for a, b in (data or {}).items():
			self[a] = b

	@property
	def columns(self):
		return list(self._cols)

	def __setitem__(self, name, data):
		if isinstance(data, (Series, dict)):
			data = Series(Series(data)._map(), self.index)
		else:
			data = Series(data, self.index)
		data.name = name
		self._cols[name] = data

	def __getitem__(self, name):
		return self._cols[name]

	def to_dict(self):
		return {a: b._map() for a, b in self._cols.items()}

	def to_csv(self, path=None):
		if path is not None:
			raise NotImplementedError
		import csv
		import io
		out = io.StringIO()
		writer = csv.writer(out, lineterminator='\n')
		writer.writerow([''] + self.columns)
		for n, key in enumerate(self.index):
			row = [self._cols[a].values[n] for a in self._cols]
			writer.writerow([key] + ['' if isinstance(x, float) and _isnan(x)
					else x for x in row])
		return out.getvalue()

	def describe(self):
		return _Description([(a, b.values) for a, b in self._cols.items()])

	def groupby(self, name):
		return _Groups(self, name)


def _series_invert(self):
	return Series([not a for a in self.values], self.index)


def _series_and(self, other):
	if len(self) != len(other):
		raise ValueError('operands could not be broadcast together')
	return Series([bool(a and b) for a, b in zip(self.values, other)])


Series.__invert__ = _series_invert
Series.__and__ = _series_and


class Index(list):
	def isin(self, values):
		values = set(values)
		return Series([a in values for a in self])


def read_table(path, encoding='utf8', index_col=None, header=None, names=(),
		nrows=None):
	"""Only: tab-separated values without header, indexed by the first."""
	import gzip
	rows = []
	with gzip.open(path, 'rt', encoding=encoding) as inp:
		for line in inp:
			if len(rows) == nrows:
				break
			rows.append(line.rstrip('\n').split('\t'))
	df = DataFrame({a: [row[n] for row in rows]
			for n, a in enumerate(names) if n != index_col},
			[row[index_col] for row in rows])
	df.index = Index(df.index)
	return df
