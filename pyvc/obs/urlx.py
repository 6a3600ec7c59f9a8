"""Obligations of locations (C17): how a reference is resolved against the file that holds it, and what is fetched from a location"""

import importlib.resources
import os
import pathlib

import z3

from bare_script import bare as bare_mod
from bare_script import options as options_mod
from pyvc import lang
from pyvc.dsl import obligation, outcome
from pyvc.engine import EObj, Model, SDict, SV, Unsupported, func, str_term
from pyvc.lang import ANY, cat, lit, plus, span
from pyvc.models import Match

# What a URL is: a scheme of lower-case letters
URL = cat(plus(span(97, 122)), lit(':'), ANY)


def is_url(t):
    return z3.InRe(t, URL)


def semantics(ip, pattern, name, args, kwargs):
    """A pattern by its language, compared with the language of URLs"""
    if kwargs or name not in ('match', 'fullmatch', 'search') or len(args) != 1:
        raise Unsupported(f'{name} of a pattern')
    t = str_term(ip.unwrap(args[0]))
    if t is None:
        raise Unsupported('pattern on another value')
    language = lang.accepts(pattern, name)
    same = lang.empty(lang.without(language, URL)) is True and lang.empty(lang.without(URL, language)) is True
    return Match(pattern, name, t) if ip.branch(is_url(t) if same else z3.InRe(t, language)) else None


def text(ip, value, what):
    t = str_term(ip.unwrap(value))
    if t is None:
        raise Unsupported(what)
    return t


def result_text(ip, value, what):
    """Claim: a text"""
    value = ip.unwrap(value)
    if value is None or isinstance(value, (bool, int, float)):
        ip.prove(False, f'{what}: a text')
    return text(ip, value, what)


class HostPath(EObj):
    """Path(text): its text is a function of the text"""

    py_class = pathlib.Path

    def __init__(self, t):
        self.t = t

    def str_of(self, ip):
        return SV('str', func('path_text', ['str'], 'str')(self.t))


def host_path(ip, args, kwargs):
    if kwargs or len(args) != 1:
        raise Unsupported('Path')
    return HostPath(text(ip, args[0], 'Path'))


def host_dirname(ip, args, kwargs):
    return SV('str', func('path_dirname', ['str'], 'str')(text(ip, args[0], 'dirname')))


def host_join(ip, args, kwargs):
    if kwargs or len(args) != 2:
        raise Unsupported('os.path.join')
    return SV('str', func('path_join', ['str', 'str'], 'str')(text(ip, args[0], 'join'), text(ip, args[1], 'join')))


def setup(ip):
    ip.pattern_contract = semantics
    ip.contracts.update({pathlib.Path: host_path, pathlib.PurePath: host_path, pathlib.PosixPath: host_path, os.path.dirname: host_dirname, os.path.join: host_join})


@obligation('url.file_relative', ['C17'], ['options.url_file_relative', 'options._R_URL'])
def _(ip):
    """A URL is itself, an absolute path the host's path of the text; another reference replaces what follows the last "/" of a URL base, or the name of a path base"""
    setup(ip)
    base, url = ip.input('str', 'file'), ip.input('str', 'url')
    result = outcome(ip, options_mod.url_file_relative, base, url)
    ip.prove(result.ok, 'a location, no exception')
    t = result_text(ip, result.value, 'location')
    path = func('path_text', ['str'], 'str')(url.t)
    if ip.branch(is_url(url.t)):
        ip.prove(t == url.t, 'an absolute URL is unchanged')
    elif ip.branch(z3.PrefixOf(z3.StringVal('/'), url.t)):
        ip.prove(z3.Or(t == path, t == url.t), 'an absolute path is unchanged')
    elif ip.branch(is_url(base.t)):
        last = z3.LastIndexOf(base.t, z3.StringVal('/'))
        ip.prove(t == z3.Concat(z3.SubString(base.t, 0, last + 1), url.t), 'the reference is in the directory of the URL')
    else:
        ip.prove(t == func('path_join', ['str', 'str'], 'str')(func('path_dirname', ['str'], 'str')(base.t), path), 'the reference is in the directory of the file')


class HostFile(EObj):
    """An open file: its text or bytes are a function of where it is, and reading or decoding it may fail"""

    def __init__(self, where, mode, encoding):
        self.where, self.mode, self.encoding = where, mode, encoding

    def enter(self, ip):
        return self

    def getattr(self, ip, name):
        if name == 'read':
            return Model(lambda ip2, args, kwargs: self.read(ip2) if not args and not kwargs else unsupported('read'))
        if name == 'write':
            return Model(self.write)
        raise Unsupported(f'{name} of a file')

    def read(self, ip):
        ip.prove(self.mode in ('r', 'rt', 'rb'), 'the file is opened for reading')
        content = HostBytes(self.where)
        return content if 'b' in self.mode else content.decode(ip, self.encoding)

    def write(self, ip, args, kwargs):
        ip.writes.append((self.where, self.mode, self.encoding, args[0]))
        return ip.fresh('int', 'written')


class HostBytes(EObj):
    """The bytes of a place"""

    py_class = bytes

    def __init__(self, where):
        self.where = where

    def decode(self, ip, encoding):
        if encoding is None:
            raise Unsupported('the default encoding')
        if ip.branch(func('place_text_fails', ['str', 'str'], 'bool')(self.where, z3.StringVal(encoding))):
            ip.raise_(UnicodeDecodeError, 'decoding')
        return SV('str', func('place_text', ['str', 'str'], 'str')(self.where, z3.StringVal(encoding)))

    def getattr(self, ip, name):
        if name == 'decode':
            return Model(lambda ip2, args, kwargs: self.decode(ip2, (list(args) + [kwargs.get('encoding', 'utf-8')])[0].lower()))
        raise Unsupported(f'{name} of bytes')


def unsupported(what):
    raise Unsupported(what)


def host_open(ip, args, kwargs):
    where = text(ip, args[0], 'open')
    mode = (list(args[1:]) + [kwargs.get('mode', 'r')])[0]
    if set(kwargs) - {'mode', 'encoding'} or len(args) > 2:
        raise Unsupported('open')
    if ip.branch(func('open_fails', ['str', 'str'], 'bool')(where, z3.StringVal(mode))):
        ip.raise_(OSError, 'open')
    return HostFile(where, mode, kwargs.get('encoding'))


class HostResource(EObj):
    """A place among the resources of a package"""

    def __init__(self, package, path=None):
        self.package, self.path = package, path

    def getattr(self, ip, name):
        if name == 'joinpath' and self.path is None:
            return Model(lambda ip2, args, kwargs: HostResource(self.package, text(ip2, args[0], 'joinpath')) if len(args) == 1 else unsupported('joinpath'))
        if name in ('open', 'read_bytes', 'read_text') and self.path is not None:
            where = func('resource_place', ['str', 'str'], 'str')(z3.StringVal(self.package), self.path)
            return Model(lambda ip2, args, kwargs: self.access(ip2, name, where, args, kwargs))
        raise Unsupported(f'{name} of a resource')

    def access(self, ip, name, where, args, kwargs):
        opened = host_open(ip, [SV('str', where), args[0] if name == 'open' and args else 'rb' if name != 'open' else 'r'], kwargs if name == 'open' else {})
        if name == 'open':
            return opened
        content = HostBytes(where)
        return content if name == 'read_bytes' else content.decode(ip, (list(args) + [kwargs.get('encoding', 'utf-8')])[0].lower())


def host_files(ip, args, kwargs):
    if kwargs or len(args) != 1 or not isinstance(args[0], str):
        raise Unsupported('resources')
    return HostResource(args[0])


def place_text(where):
    return func('place_text', ['str', 'str'], 'str')(where, z3.StringVal('utf-8'))


def fetched(ip, result, where, mode, what):
    """Claim: the text of a place, or the failure of the host to give it"""
    fails = func('open_fails', ['str', 'str'], 'bool')(where, z3.StringVal(mode)), func('place_text_fails', ['str', 'str'], 'bool')(where, z3.StringVal('utf-8'))
    if result.ok:
        ip.prove(result_text(ip, result.value, what) == place_text(where), what)
    else:
        ip.prove(z3.Or(*fails), f'{what}: an exception of the host only')


def http(ip, args, kwargs):
    """fetch_http(request): a text of the request, or an exception"""
    request = ip.unwrap(args[0])
    ip.prove(request is ip.request, 'the request is passed on')
    if ip.branch(z3.Bool('http_fails')):
        ip.raise_(OSError, 'http')
    return SV('str', z3.String('http_text'))


def request_of(ip, body):
    url = ip.input('str', 'url')
    items = {'url': url}
    if body:
        items['body'] = ip.input('str', 'body')
    ip.request = SDict(ip)
    for key, value in items.items():
        ip.request.setitem(ip, key, value)
    ip.writes = []
    ip.contracts[options_mod.fetch_http] = http
    ip.contracts['open'] = host_open
    ip.contracts[open] = host_open
    ip.contracts[importlib.resources.files] = host_files
    return url, items.get('body')


def check_http(ip, result):
    if result.ok:
        ip.prove(result_text(ip, result.value, 'http') == z3.String('http_text'), 'the text of the URL')
    else:
        ip.prove(z3.Bool('http_fails'), 'an exception of the host only')


for _name in ('fetch_read_only', 'fetch_read_write'):
    def _fetch(name):
        @obligation(f'url.{name}', ['C17'], [f'options.{name}', 'options._R_URL'])
        def _(ip):
            """A URL is fetched from the network, a path read from the file; nothing else is touched"""
            setup(ip)
            body = ip.pick([False, True])
            url, content = request_of(ip, body)
            result = outcome(ip, getattr(options_mod, name), ip.request)
            if ip.branch(is_url(url.t)):
                check_http(ip, result)
                ip.prove(not ip.writes, 'nothing is written')
            elif not body:
                fetched(ip, result, url.t, 'r', 'the text of the file')
                ip.prove(not ip.writes, 'nothing is written')
            elif name == 'fetch_read_only':
                ip.prove(result.ok and result.value is None and not ip.writes, 'no file is written')
            elif result.ok:
                ip.prove(len(ip.writes) == 1, 'one file is written')
                where, mode, encoding, written = ip.writes[0]
                ip.prove(z3.And(where == url.t, text(ip, written, 'written') == content.t), 'the body is written to the file')
                ip.prove(mode in ('w', 'wt') and encoding == 'utf-8', 'as text')
    _fetch(_name)


@obligation('url.fetch_include', ['C17'], ['bare._fetch_include', 'bare._FETCH_INCLUDE_PREFIX'])
def _(ip):
    """The command line fetches a system include from the package's own files, everything else as it fetches files and URLs"""
    setup(ip)
    url, _ = request_of(ip, False)

    def read_write(ip2, args, kwargs):
        ip2.prove(ip2.unwrap(args[0]) is ip2.request, 'the request is passed on')
        if ip2.branch(z3.Bool('read_write_fails')):
            ip2.raise_(OSError, 'fetch')
        return SV('str', z3.String('read_write_text'))
    ip.contracts[options_mod.fetch_read_write] = read_write
    result = outcome(ip, bare_mod._fetch_include, ip.request)
    prefix = z3.StringVal(':bare-include:/')
    if ip.branch(z3.PrefixOf(prefix, url.t)):
        path = z3.SubString(url.t, z3.Length(prefix), z3.Length(url.t) - z3.Length(prefix))
        where = func('resource_place', ['str', 'str'], 'str')(z3.StringVal('bare_script.include'), path)
        fetched(ip, result, where, 'rb', "the text of the package's file")
    elif result.ok:
        ip.prove(result_text(ip, result.value, 'fetched') == z3.String('read_write_text'), 'the text of the file or URL')
    else:
        ip.prove(z3.Bool('read_write_fails'), 'an exception of the host only')
