"""Minimal replacement for Flask: same programming interface, no network.

A request is performed with ``Flask.handle(path, query, headers)``, in the
thread of the caller; the body of a streamed response is consumed piece by
piece, after the request context is gone, as a WSGI server does."""
import io
import os
import sys
import json
import base64
import threading
from urllib.parse import parse_qsl, quote
import jinja2
from markupsafe import Markup, escape

_local = threading.local()
YIELD = None  # called between pieces of a response


def _stack():
	if not hasattr(_local, 'stack'):
		_local.stack = []
	return _local.stack


class HTTPException(Exception):
	def __init__(self, code, description=''):
		super().__init__('%s: %s' % (code, description))
		self.code, self.description = code, description


def abort(code, description='', **kw):
	raise HTTPException(code, description)


class _Proxy:
	def __init__(self, name):
		object.__setattr__(self, '_name', name)

	def _get_current_object(self):
		if not _stack():
			raise RuntimeError('Working outside of request context.')
		return getattr(_stack()[-1], self._name)

	def __getattr__(self, name):
		return getattr(self._get_current_object(), name)

	def __setattr__(self, name, value):
		setattr(self._get_current_object(), name, value)

	def __getitem__(self, key):
		return self._get_current_object()[key]

	def __setitem__(self, key, value):
		self._get_current_object()[key] = value

	def __contains__(self, key):
		return key in self._get_current_object()

	def __iter__(self):
		return iter(self._get_current_object())

	def __bool__(self):
		return bool(_stack())


request = _Proxy('request')
g = _Proxy('g')
session = _Proxy('session')
current_app = _Proxy('app')


class BadRequestKeyError(HTTPException, KeyError):
	def __init__(self, key):
		HTTPException.__init__(self, 400, 'missing argument %s' % key)


class MultiDict(dict):
	"""The first value of each key, as in werkzeug."""

	def __init__(self, pairs=()):
		super().__init__()
		self._lists = {}
		for k, v in pairs:
			self._lists.setdefault(k, []).append(v)
			if k not in self:
				super().__setitem__(k, v)

	def __getitem__(self, key):
		if key not in self:
			raise BadRequestKeyError(key)
		return super().__getitem__(key)

	def get(self, key, default=None, type=None):
		if key not in self:
			return default
		val = self[key]
		if type is not None:
			try:
				val = type(val)
			except (ValueError, TypeError):
				return default
		return val

	def getlist(self, key, type=None):
		res = list(self._lists.get(key, ()))
		return [type(a) for a in res] if type else res

	def to_dict(self, flat=True):
		return dict(self) if flat else {k: list(v)
				for k, v in self._lists.items()}

	def items(self, multi=False):
		if multi:
			return [(k, v) for k, vals in self._lists.items() for v in vals]
		return super().items()

	def lists(self):
		return self._lists.items()

	def copy(self):
		return MultiDict(self.items(multi=True))

	def __setitem__(self, key, value):
		raise TypeError('ImmutableMultiDict objects are immutable')
	__delitem__ = pop = update = setdefault = clear = __setitem__


class Headers(dict):
	def __init__(self, data=()):
		super().__init__()
		for k, v in dict(data or ()).items():
			self[k] = v

	def __setitem__(self, key, value):
		super().__setitem__(key.title(), value)

	def __getitem__(self, key):
		return super().__getitem__(key.title())

	def get(self, key, default=None):
		return super().get(key.title(), default)

	def set(self, key, value):
		self[key] = value

	def add(self, key, value):
		self[key] = value

	def __contains__(self, key):
		return super().__contains__(key.title())

	def setdefault(self, key, value=None):
		return super().setdefault(key.title(), value)


class Authorization:
	def __init__(self, username, password):
		self.type = 'basic'
		self.username, self.password = username, password


class Request:
	def __init__(self, environ):
		self.environ = environ
		self.path = environ['PATH_INFO']
		self.method = environ.get('REQUEST_METHOD', 'GET')
		self.query_string = environ.get('QUERY_STRING', '').encode('utf8')
		self.args = MultiDict(parse_qsl(environ.get('QUERY_STRING', ''),
				keep_blank_values=True))
		self.form = MultiDict()
		self.values = self.args
		self.headers = Headers({k[5:].replace('_', '-'): v
				for k, v in environ.items() if k.startswith('HTTP_')})
		self.cookies = {}
		self.remote_addr = '127.0.0.1'
		self.authorization = None
		self.endpoint = None
		self.url_rule = None
		auth = self.headers.get('Authorization', '')
		if auth.lower().startswith('basic '):
			try:
				a, b = base64.b64decode(auth[6:]).decode('utf8').split(':', 1)
				self.authorization = Authorization(a, b)
			except ValueError:
				pass

	@property
	def full_path(self):
		return self.path + '?' + self.query_string.decode('utf8')
	url = full_path


class Response:
	default_mimetype = 'text/html'

	def __init__(self, response=None, status=200, headers=None, mimetype=None,
			content_type=None, direct_passthrough=False):
		if response is None:
			response = []
		elif isinstance(response, (str, bytes, bytearray)):
			response = [response]
		self.response = response
		self.status_code = int(str(status).split()[0])
		self.headers = Headers(headers)
		self.mimetype = mimetype or self.default_mimetype
		self.headers.setdefault('Content-Type', content_type or self.mimetype)
		self._onclose = []

	@property
	def status(self):
		return str(self.status_code)

	@property
	def content_type(self):
		return self.headers.get('Content-Type')

	@content_type.setter
	def content_type(self, x):
		self.headers['Content-Type'] = x

	@property
	def data(self):
		return self.get_data()

	@data.setter
	def data(self, x):
		self.set_data(x)

	def get_data(self, as_text=False):
		x = b''.join(a.encode('utf8') if isinstance(a, str) else bytes(a)
				for a in self.response)
		self.response = [x]
		return x.decode('utf8') if as_text else x

	def set_data(self, x):
		self.response = [x]

	def call_on_close(self, fn):
		self._onclose.append(fn)
		return fn

	def set_cookie(self, *args, **kw):
		pass

	def close(self):
		if hasattr(self.response, 'close'):
			self.response.close()
		for fn in self._onclose:
			fn()

	def __enter__(self):
		return self

	def __exit__(self, *args):
		self.close()


def make_response(*args):
	if not args:
		return Response()
	return _response(args[0] if len(args) == 1 else args)


def _response(rv):
	status = headers = None
	if isinstance(rv, tuple):
		if len(rv) == 3:
			rv, status, headers = rv
		elif len(rv) == 2:
			if isinstance(rv[1], (dict, list)):
				rv, headers = rv
			else:
				rv, status = rv
	if rv is None:
		raise TypeError('The view function did not return a valid response. '
				'The function either returned None or ended without a return '
				'statement.')
	if isinstance(rv, (dict, list)):
		rv = jsonify(rv)
	elif isinstance(rv, (str, bytes, bytearray)) or (
			hasattr(rv, '__next__') or hasattr(rv, '__iter__')) and not \
			isinstance(rv, Response):
		rv = Response(rv)
	if not isinstance(rv, Response):
		raise TypeError('The view function did not return a valid response: %r'
				% (rv, ))
	if status is not None:
		rv.status_code = int(str(status).split()[0])
	for k, v in dict(headers or ()).items():
		rv.headers[k] = v
	return rv


def jsonify(*args, **kw):
	return Response(json.dumps(kw or (args[0] if len(args) == 1 else args)),
			mimetype='application/json')


def redirect(location, code=302, Response=Response):
	return Response('redirect to %s' % location, status=code,
			headers={'Location': location})


def url_for(endpoint, **values):
	app = _stack()[-1].app if _stack() else Flask.last
	if endpoint == 'static':
		return '/static/' + values.get('filename', '')
	for path, name, _ in app.rules:
		if name == endpoint:
			return path
	raise RuntimeError('Could not build url for endpoint %r' % endpoint)


def render_template(name, **context):
	app = _stack()[-1].app
	app.update_template_context(context)
	return app.jinja_env.get_template(name).render(context)


def render_template_string(source, **context):
	app = _stack()[-1].app
	app.update_template_context(context)
	return app.jinja_env.from_string(source).render(context)


def stream_with_context(gen):
	ctx = _stack()[-1]
	gen = gen() if callable(gen) else gen

	def fun():
		while True:
			_stack().append(ctx)
			try:
				x = next(gen)
			except StopIteration:
				return
			finally:
				_stack().pop()
			yield x
	return fun()


def after_this_request(fn):
	_stack()[-1].after.append(fn)
	return fn


def _wrapfile(f):
	try:
		while True:
			x = f.read(64)
			if not x:
				return
			yield x
	finally:
		f.close()


def send_file(path_or_file, mimetype=None, as_attachment=False,
		download_name=None, **kw):
	if hasattr(path_or_file, 'read'):
		return Response(_wrapfile(path_or_file), mimetype=mimetype
				or 'application/octet-stream')
	import mimetypes
	path = os.fspath(path_or_file)
	# NB: opened now, read as the response is sent
	f = open(path, 'rb')
	return Response(_wrapfile(f), mimetype=mimetype
			or mimetypes.guess_type(path)[0] or 'application/octet-stream')


def send_from_directory(directory, path, **kw):
	full = os.path.join(directory, path)
	if os.path.relpath(full, directory).startswith('..') or not \
			os.path.isfile(full):
		raise HTTPException(404, 'not found')
	return send_file(full, **kw)


class _Context:
	def __init__(self, app, request):
		self.app, self.request = app, request
		self.g = type('g', (), {})()
		self.session = {}
		self.after = []


class Logger:
	def _log(self, *args, **kw):
		if YIELD is not None:
			YIELD('log')
	debug = info = warning = error = exception = critical = log = _log
	level = 0

	def setLevel(self, *args):
		pass
	addHandler = setLevel


class Config(dict):
	def from_object(self, *args):
		pass
	from_envvar = from_pyfile = from_object


class Flask:
	last = None

	def __init__(self, name, static_folder='static', template_folder='templates',
			**kw):
		mod = sys.modules.get(name)
		self.name = self.import_name = name
		self.root_path = os.path.dirname(os.path.abspath(
				getattr(mod, '__file__', None) or os.getcwd() + '/x'))
		self.logger = Logger()
		self.config = Config()
		self.rules = []
		self.before, self.after, self.handlers = [], [], {}
		self.processors = []
		self.view_functions = {}
		self.debug = self.testing = False
		self.secret_key = None
		self.extensions = {}
		self.jinja_env = jinja2.Environment(loader=jinja2.FileSystemLoader(
				os.path.join(self.root_path, template_folder)),
				autoescape=jinja2.select_autoescape(), auto_reload=False)
		self.jinja_env.globals.update(url_for=url_for,
				get_flashed_messages=lambda **kw: [])
		Flask.last = self

	def route(self, rule, **options):
		def deco(fn):
			self.add_url_rule(rule, options.get('endpoint'), fn)
			return fn
		return deco
	get = post = route

	def add_url_rule(self, rule, endpoint=None, view_func=None, **kw):
		endpoint = endpoint or view_func.__name__
		self.rules.append((rule, endpoint, view_func))
		old = self.view_functions.setdefault(endpoint, view_func)
		if old is not view_func:
			raise AssertionError('View function mapping is overwriting an '
					'existing endpoint function: %s' % endpoint)

	def before_request(self, fn):
		self.before.append(fn)
		return fn

	def after_request(self, fn):
		self.after.append(fn)
		return fn

	def teardown_request(self, fn):
		return fn
	teardown_appcontext = before_first_request = teardown_request

	def errorhandler(self, code):
		def deco(fn):
			self.handlers[code] = fn
			return fn
		return deco

	def context_processor(self, fn):
		self.processors.append(fn)
		return fn

	def update_template_context(self, context):
		given = dict(context)
		if _stack():
			context.update(request=_stack()[-1].request, g=_stack()[-1].g,
					session=_stack()[-1].session, config=self.config)
			for fn in self.processors:
				context.update(fn())
			context.update(given)

	def run(self, *args, **kw):
		raise RuntimeError('no network')

	def wsgi_app(self, environ, start_response):
		ctx = _Context(self, Request(environ))
		_stack().append(ctx)
		try:
			try:
				for fn in self.before:
					rv = fn()
					if rv is not None:
						break
				else:
					for rule, name, fn in self.rules:
						if rule == ctx.request.path:
							ctx.request.endpoint = name
							rv = fn()
							break
					else:
						raise HTTPException(404, 'not found')
				resp = _response(rv)
			except HTTPException as err:
				resp = Response(str(err), status=err.code)
			except Exception as err:
				fn = self.handlers.get(type(err)) or self.handlers.get(500)
				if fn is None:
					raise
				resp = _response(fn(err))
			for fn in ctx.after + self.after[::-1]:
				resp = fn(resp) or resp
		finally:
			_stack().pop()
		start_response('%d X' % resp.status_code, list(resp.headers.items()))

		def body():
			try:
				for x in resp.response:
					yield x.encode('utf8') if isinstance(x, str) else bytes(x)
			finally:
				resp.close()
		return body()

	def __call__(self, environ, start_response):
		return self.wsgi_app(environ, start_response)

	def handle(self, path, query='', auth=None):
		"""Perform a request; returns (status, content type, body)."""
		environ = dict(PATH_INFO=path, QUERY_STRING=query,
				REQUEST_METHOD='GET')
		if auth is not None:
			environ['HTTP_AUTHORIZATION'] = 'Basic ' + base64.b64encode(
					('%s:%s' % auth).encode('utf8')).decode('ascii')
		status = []

		def start(s, headers, exc_info=None):
			status[:] = [int(s.split()[0]), dict(headers)]
		res = []
		body = self(environ, start)
		try:
			for x in body:
				res.append(x)
				if YIELD is not None:
					YIELD('send')
		finally:
			if hasattr(body, 'close'):
				body.close()
		return status[0], status[1], b''.join(res)

	def test_client(self):
		raise RuntimeError('not available')
