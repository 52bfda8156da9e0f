#!/usr/bin/env python3
"""Generates stand-in C++ message classes from the repository's .proto files.

The classes keep the accessor API of the protobuf C++ generator (has_, set_,
mutable_, add_, oneof cases, extensions, descriptors of enums) on plain value
storage.  The wire format is not reproduced.
Usage: pbgen.py REPO OUTDIR
"""
import os, re, sys

SCALARS = {'double': 'double', 'float': 'float', 'int32': 'std::int32_t',
           'int64': 'std::int64_t', 'uint32': 'std::uint32_t',
           'uint64': 'std::uint64_t', 'sint32': 'std::int32_t',
           'sint64': 'std::int64_t', 'fixed32': 'std::uint32_t',
           'fixed64': 'std::uint64_t', 'sfixed32': 'std::int32_t',
           'sfixed64': 'std::int64_t', 'bool': 'bool',
           'string': 'std::string', 'bytes': 'std::string'}
KEYWORDS = {'double', 'float', 'int', 'class', 'default', 'operator', 'new',
            'delete', 'union', 'struct', 'public', 'private', 'template',
            'typename', 'namespace', 'this', 'const', 'static', 'bool', 'long',
            'short', 'signed', 'unsigned', 'char', 'void', 'if', 'else', 'for',
            'while', 'do', 'return', 'switch', 'case', 'break', 'continue',
            'explicit', 'export', 'extern', 'friend', 'goto', 'inline',
            'register', 'mutable', 'try', 'catch', 'throw', 'using', 'virtual',
            'volatile', 'enum', 'true', 'false', 'auto', 'not', 'and', 'or'}


class Tok:
    def __init__(self, s):
        s = s.lstrip('\ufeff')
        s = re.sub(r'//[^\n]*', '', s)
        s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
        self.t = re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_.][\w.]*|-?\d[\w.+]*|[{}()\[\]<>=;,\-]', s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, x):
        y = self.next()
        assert x == y, (x, y, self.t[max(0, self.i - 8):self.i + 4])

    def skip_to(self, x):
        while self.next() != x:
            pass


class Msg:
    def __init__(self, name, parent):
        self.name, self.parent = name, parent
        self.fields, self.msgs, self.enums, self.oneofs, self.exts = [], [], [], [], []
        self.extendable = False

    @property
    def cpp(self):
        return (self.parent.cpp + '_' if self.parent else '') + self.name

    @property
    def full(self):
        return (self.parent.full + '.' if self.parent else '') + self.name


class Enum:
    def __init__(self, name, parent):
        self.name, self.parent, self.values = name, parent, []

    @property
    def cpp(self):
        return (self.parent.cpp + '_' if self.parent else '') + self.name

    @property
    def full(self):
        return (self.parent.full + '.' if self.parent else '') + self.name


class Field:
    pass


def parse_field(t, label, oneof):
    f = Field()
    f.label, f.oneof, f.default = label, oneof, None
    ty = t.next()
    f.map = None
    if ty == 'map':
        t.expect('<')
        k = t.next()
        t.expect(',')
        v = t.next()
        t.expect('>')
        f.map = (k, v)
        f.label = 'map'
    f.type = ty
    f.name = t.next()
    t.expect('=')
    f.number = int(t.next(), 0)
    if t.peek() == '[':
        t.next()
        depth = 1
        while depth:
            x = t.next()
            if x == '[':
                depth += 1
            elif x == ']':
                depth -= 1
            elif x == 'default' and depth == 1:
                t.expect('=')
                f.default = t.next()
    t.expect(';')
    return f


def parse_enum(t, parent):
    e = Enum(t.next(), parent)
    t.expect('{')
    while t.peek() != '}':
        n = t.next()
        if n in ('reserved', 'option'):
            t.skip_to(';')
            continue
        t.expect('=')
        v = t.next()
        if v == '-':
            v = '-' + t.next()
        e.values.append((n, int(v, 0)))
        if t.peek() == '[':
            t.skip_to(']')
        t.expect(';')
    t.next()
    if t.peek() == ';':
        t.next()
    return e


def parse_msg(t, parent):
    m = Msg(t.next(), parent)
    t.expect('{')
    while t.peek() != '}':
        x = t.peek()
        if x == 'message':
            t.next()
            m.msgs.append(parse_msg(t, m))
        elif x == 'enum':
            t.next()
            m.enums.append(parse_enum(t, m))
        elif x == 'extend':
            t.next()
            base = t.next()
            t.expect('{')
            while t.peek() != '}':
                f = parse_field(t, t.next(), None)
                m.exts.append((base, f))
            t.next()
        elif x == 'extensions':
            m.extendable = True
            t.skip_to(';')
        elif x in ('reserved', 'option'):
            t.skip_to(';')
        elif x == 'oneof':
            t.next()
            o = t.next()
            m.oneofs.append(o)
            t.expect('{')
            while t.peek() != '}':
                m.fields.append(parse_field(t, 'optional', o))
            t.next()
        elif x in ('optional', 'required', 'repeated'):
            t.next()
            m.fields.append(parse_field(t, x, None))
        elif x == ';':
            t.next()
        else:
            m.fields.append(parse_field(t, 'optional', None))
    t.next()
    return m


class File:
    pass


def parse(path):
    t = Tok(open(path, encoding='utf-8').read())
    f = File()
    f.imports, f.msgs, f.enums, f.package = [], [], [], ''
    while t.peek() is not None:
        x = t.next()
        if x == 'syntax' or x == 'option':
            t.skip_to(';')
        elif x == 'import':
            f.imports.append(t.next().strip('"'))
            t.expect(';')
        elif x == 'package':
            f.package = t.next()
            t.expect(';')
        elif x == 'message':
            f.msgs.append(parse_msg(t, None))
        elif x == 'enum':
            f.enums.append(parse_enum(t, None))
        elif x == 'extend':
            t.expect('{') if t.peek() == '{' else t.skip_to('{')
            t.skip_to('}')
        elif x == ';':
            pass
        else:
            raise Exception('%s: unexpected %s' % (path, x))
    return f


def all_msgs(ms):
    for m in ms:
        yield m
        yield from all_msgs(m.msgs)


class Gen:
    def __init__(self):
        self.types = {}  # package.full -> (kind, package, object)

    def register(self, f):
        def add(m):
            self.types[f.package + '.' + m.full] = ('msg', f.package, m)
            for x in m.msgs:
                add(x)
            for e in m.enums:
                self.types[f.package + '.' + e.full] = ('enum', f.package, e)
        for m in f.msgs:
            add(m)
        for e in f.enums:
            self.types[f.package + '.' + e.full] = ('enum', f.package, e)

    def resolve(self, name, scope, package):
        if name.startswith('.'):
            return self.types[name[1:]]
        parts = (package + ('.' + scope if scope else '')).split('.')
        while True:
            k = '.'.join(parts + [name])
            if k in self.types:
                return self.types[k]
            if not parts:
                raise KeyError(name)
            parts.pop()

    def ctype(self, ty, m, package):
        if ty in SCALARS:
            return ('str' if ty in ('string', 'bytes') else 'scalar'), SCALARS[ty]
        kind, pk, o = self.resolve(ty, m.full, package)
        return kind, '::' + pk.replace('.', '::') + '::' + o.cpp

    def emit(self, f, path, out):
        w = []
        p = w.append
        base = path[:-len('.proto')]
        p('// Generated by pbgen.py from %s.' % path)
        p('#pragma once')
        p('#include "google/protobuf/vf_protobuf.h"')
        for i in f.imports:
            if i.startswith('google/') or i.endswith('options.proto'):
                continue
            p('#include "%s.pb.h"' % i[:-len('.proto')])
        for n in f.package.split('.'):
            p('namespace %s {' % n)
        ms = list(all_msgs(f.msgs))
        for m in ms:
            p('class %s;' % m.cpp)
        enums = list(f.enums) + [e for m in ms for e in m.enums]
        for e in enums:
            pre = (e.parent.cpp + '_' + e.name + '_') if e.parent else ''
            p('enum %s : int {' % e.cpp)
            for n, v in e.values:
                p('  %s%s = %s,' % (pre, n, '(-2147483647 - 1)' if v == -2147483648 else v))
            p('};')
            p('inline bool %s_IsValid(int v) {' % e.cpp)
            p('  switch (v) {')
            for v in sorted({v for _, v in e.values}):
                p('    case %s:' % ('(-2147483647 - 1)' if v == -2147483648 else v))
            p('      return true;\n  }\n  return false;\n}')
            p('inline ::google::protobuf::EnumDescriptor const* %s_descriptor() {' % e.cpp)
            p('  struct D {')
            p('    static ::google::protobuf::EnumDescriptor const* get() {')
            p('      static ::google::protobuf::EnumDescriptor const d{"%s.%s", "%s", values(), %d};'
              % (f.package, e.full, e.name, len(e.values)))
            p('      return &d;\n    }')
            p('    static ::google::protobuf::EnumValueDescriptor const* values() {')
            p('      static ::google::protobuf::EnumValueDescriptor const v[] = {')
            for n, v in e.values:
                p('        {"%s", %s, &get},' % (n, '(-2147483647 - 1)' if v == -2147483648 else v))
            p('      };')
            p('      return v;\n    }\n  };')
            p('  return D::get();\n}')
            p('inline std::string %s_Name(int v) {' % e.cpp)
            p('  auto const* d = %s_descriptor()->FindValueByNumber(v);' % e.cpp)
            p('  return d ? std::string(d->name()) : std::string();\n}')
            p('inline bool %s_Parse(std::string_view s, %s* v) {' % (e.cpp, e.cpp))
            p('  auto const* d = %s_descriptor();' % e.cpp)
            p('  for (int i = 0; i < d->n_; ++i) {')
            p('    if (s == d->values_[i].name_) { *v = static_cast<%s>(d->values_[i].number_); return true; }\n  }' % e.cpp)
            p('  return false;\n}')
        for m in ms:
            self.emit_class(m, f, p)
        for m in ms:
            self.emit_bodies(m, f, p)
        for n in reversed(f.package.split('.')):
            p('}  // namespace %s' % n)
        p('namespace google { namespace protobuf {')
        for e in enums:
            q = '::' + f.package.replace('.', '::') + '::' + e.cpp
            p('template<> struct is_proto_enum<%s> : std::true_type {};' % q)
            p('template<> inline EnumDescriptor const* GetEnumDescriptor<%s>() { return %s_descriptor(); }' % (q, q))
        p('} }')
        o = os.path.join(out, base + '.pb.h')
        os.makedirs(os.path.dirname(o), exist_ok=True)
        text = '\n'.join(w) + '\n'
        if not os.path.exists(o) or open(o).read() != text:
            open(o, 'w').write(text)

    @staticmethod
    def acc(f):
        n = f.name.lower()
        return n + '_' if n in KEYWORDS else n

    def emit_class(self, m, f, p):
        c = m.cpp
        p('class %s : public ::google::protobuf::Message%s {' %
          (c, ', public ::vfpb::Extendable' if m.extendable else ''))
        p(' public:')
        p('  %s();' % c)
        p('  %s(%s const& o);' % (c, c))
        p('  %s(%s&& o);' % (c, c))
        p('  %s& operator=(%s const& o);' % (c, c))
        p('  %s& operator=(%s&& o);' % (c, c))
        p('  ~%s() override;' % c)
        p('  static %s const& default_instance();' % c)
        p('  %s* New(::google::protobuf::Arena* = nullptr) const { return new %s; }' % (c, c))
        p('  void Clear();')
        p('  void CopyFrom(%s const& o) { *this = o; }' % c)
        p('  void MergeFrom(%s const& o);' % c)
        p('  void Swap(%s* o);' % c)
        p('  bool IsInitialized() const { return true; }')
        p('  bool vf_equals(%s const& o) const;' % c)
        p('  static ::google::protobuf::Descriptor const* descriptor();')
        p('  static ::google::protobuf::Descriptor const* GetDescriptor() { return descriptor(); }')
        for x in m.msgs:
            p('  using %s = %s;' % (x.name, x.cpp))
        for e in m.enums:
            p('  using %s = %s;' % (e.name, e.cpp))
            for n, _ in e.values:
                p('  static constexpr %s %s = %s_%s;' % (e.cpp, n, e.cpp, n))
            p('  static bool %s_IsValid(int v) { return %s_IsValid(v); }' % (e.name, e.cpp))
            p('  static std::string %s_Name(int v) { return %s_Name(v); }' % (e.name, e.cpp))
            p('  static bool %s_Parse(std::string_view s, %s* v) { return %s_Parse(s, v); }' % (e.name, e.cpp, e.cpp))
            p('  static ::google::protobuf::EnumDescriptor const* %s_descriptor() { return %s_descriptor(); }' % (e.name, e.cpp))
        for base, x in m.exts:
            kind, t = self.ctype(x.type, m, f.package)
            p('  static constexpr ::vfpb::ExtensionIdentifier<%s, %d> %s{};' % (t, x.number, x.name))
            p('  static constexpr int k%sFieldNumber = %d;' % (''.join(q.capitalize() for q in x.name.split('_')), x.number))
        for o in m.oneofs:
            oc = ''.join(q.capitalize() for q in o.split('_'))
            p('  enum %sCase {' % oc)
            for x in m.fields:
                if x.oneof == o:
                    p('    k%s = %d,' % (''.join(q[:1].upper() + q[1:] for q in x.name.split('_')), x.number))
            p('    %s_NOT_SET = 0\n  };' % o.upper())
            p('  %sCase %s_case() const { return static_cast<%sCase>(%s_case_); }' % (oc, o, oc, o))
            p('  void clear_%s();' % o)
        for x in m.fields:
            a = self.acc(x)
            p('  static constexpr int k%sFieldNumber = %d;' % (''.join(q[:1].upper() + q[1:] for q in x.name.split('_')), x.number))
            if x.map:
                _, k = self.ctype(x.map[0], m, f.package)
                _, v = self.ctype(x.map[1], m, f.package)
                T = '::google::protobuf::Map<%s, %s>' % (k, v)
                p('  %s const& %s() const;' % (T, a))
                p('  %s* mutable_%s();' % (T, a))
                p('  int %s_size() const;' % a)
                p('  void clear_%s();' % a)
                continue
            kind, t = self.ctype(x.type, m, f.package)
            if x.label == 'repeated':
                if kind in ('msg', 'str'):
                    R = '::google::protobuf::RepeatedPtrField<%s>' % t
                    p('  %s const& %s(int i) const;' % (t, a))
                    p('  %s* mutable_%s(int i);' % (t, a))
                    p('  %s* add_%s();' % (t, a))
                    if kind == 'str':
                        p('  void add_%s(std::string_view v);' % a)
                        p('  void set_%s(int i, std::string_view v);' % a)
                else:
                    R = '::google::protobuf::RepeatedField<%s>' % t
                    p('  %s %s(int i) const;' % (t, a))
                    p('  void set_%s(int i, %s v);' % (a, t))
                    p('  void add_%s(%s v);' % (a, t))
                p('  %s const& %s() const;' % (R, a))
                p('  %s* mutable_%s();' % (R, a))
                p('  int %s_size() const;' % a)
                p('  void clear_%s();' % a)
                continue
            p('  bool has_%s() const;' % a)
            p('  void clear_%s();' % a)
            if kind == 'msg':
                p('  %s const& %s() const;' % (t, a))
                p('  %s* mutable_%s();' % (t, a))
                p('  %s* release_%s();' % (t, a))
                p('  void set_allocated_%s(%s* v);' % (a, t))
            elif kind == 'str':
                p('  std::string const& %s() const;' % a)
                p('  std::string* mutable_%s();' % a)
                p('  void set_%s(std::string_view v);' % a)
                p('  void set_%s(void const* v, std::size_t n);' % a)
            else:
                p('  %s %s() const;' % (t, a))
                p('  void set_%s(%s v);' % (a, t))
        p(' private:')
        for o in m.oneofs:
            p('  int %s_case_ = 0;' % o)
        for x in m.fields:
            a = self.acc(x)
            if x.map:
                _, k = self.ctype(x.map[0], m, f.package)
                _, v = self.ctype(x.map[1], m, f.package)
                p('  ::google::protobuf::Map<%s, %s> f_%s;' % (k, v, a))
                continue
            kind, t = self.ctype(x.type, m, f.package)
            if x.label == 'repeated':
                p('  ::google::protobuf::Repeated%sField<%s> f_%s;' % ('Ptr' if kind in ('msg', 'str') else '', t, a))
            elif kind == 'msg':
                p('  ::vfpb::Ptr<%s> f_%s;' % (t, a))
            else:
                p('  bool h_%s = false;' % a)
                d = self.default(x, kind, t)
                p('  %s f_%s{%s};' % (t, a, d))
        p('};')

    def default(self, x, kind, t):
        if x.default is None:
            return '' if kind != 'enum' else 'static_cast<%s>(0)' % t
        if kind == 'enum':
            return t + '_' + x.default
        return x.default

    def emit_bodies(self, m, f, p):
        c = m.cpp
        I = 'inline '
        p(I + '%s::%s() = default;' % (c, c))
        p(I + '%s::~%s() = default;' % (c, c))
        p(I + '%s::%s(%s const& o) = default;' % (c, c, c))
        p(I + '%s::%s(%s&& o) { Swap(&o); }' % (c, c, c))
        p(I + '%s& %s::operator=(%s const& o) = default;' % (c, c, c))
        p(I + '%s& %s::operator=(%s&& o) { if (this != &o) { Clear(); Swap(&o); } return *this; }' % (c, c, c))
        p(I + '%s const& %s::default_instance() { static %s* const d = new %s; return *d; }' % (c, c, c, c))
        p(I + 'void %s::Clear() { %s e; Swap(&e); }' % (c, c))
        p(I + '::google::protobuf::Descriptor const* %s::descriptor() {' % c)
        if m.enums:
            p('  static ::google::protobuf::EnumDescriptor const* const enums[] = {%s};' %
              ', '.join(e.cpp + '_descriptor()' for e in m.enums))
        p('  static ::google::protobuf::Descriptor const d{"%s.%s", "%s", %s, %d};' %
          (f.package, m.full, m.name, 'enums' if m.enums else 'nullptr', len(m.enums)))
        p('  return &d;\n}')
        # Swap, equality, merge.
        p(I + 'void %s::Swap(%s* o) {' % (c, c))
        for o in m.oneofs:
            p('  std::swap(%s_case_, o->%s_case_);' % (o, o))
        if m.extendable:
            p('  ext_.swap(o->ext_);')
        names = []
        for x in m.fields:
            a = self.acc(x)
            kind = 'map' if x.map else self.ctype(x.type, m, f.package)[0]
            names.append('f_' + a)
            if not x.map and x.label != 'repeated' and kind != 'msg':
                names.append('h_' + a)
        for n in names:
            p('  std::swap(%s, o->%s);' % (n, n))
        p('}')
        p(I + 'bool %s::vf_equals(%s const& o) const {' % (c, c))
        for o in m.oneofs:
            p('  if (%s_case_ != o.%s_case_) return false;' % (o, o))
        if m.extendable:
            p('  if (!vf_ext_equals(o)) return false;')
        for x in m.fields:
            a = self.acc(x)
            kind = 'map' if x.map else self.ctype(x.type, m, f.package)[0]
            if x.map or x.label == 'repeated' or kind == 'msg':
                p('  if (!::vfpb::Eq(f_%s, o.f_%s)) return false;' % (a, a))
            else:
                p('  if (h_%s != o.h_%s) return false;' % (a, a))
                p('  if (h_%s && !(f_%s == o.f_%s)) return false;' % (a, a, a))
        p('  return true;\n}')
        p(I + 'void %s::MergeFrom(%s const& o) {' % (c, c))
        if m.extendable:
            p('  vf_ext_merge(o);')
        for x in m.fields:
            a = self.acc(x)
            if x.map or x.label == 'repeated':
                p('  f_%s.MergeFrom(o.f_%s);' % (a, a))
                continue
            kind = self.ctype(x.type, m, f.package)[0]
            if kind == 'msg':
                p('  if (o.has_%s()) mutable_%s()->MergeFrom(o.%s());' % (a, a, a))
            else:
                p('  if (o.has_%s()) set_%s(o.%s());' % (a, a, a))
        p('}')
        for o in m.oneofs:
            p(I + 'void %s::clear_%s() {' % (c, o))
            for x in m.fields:
                if x.oneof == o:
                    a = self.acc(x)
                    kind, t = self.ctype(x.type, m, f.package)
                    if kind == 'msg':
                        p('  f_%s.reset();' % a)
                    else:
                        p('  h_%s = false; f_%s = %s{%s};' % (a, a, t, self.default(x, kind, t)))
            p('  %s_case_ = 0;\n}' % o)
        for x in m.fields:
            a = self.acc(x)
            if x.map:
                _, k = self.ctype(x.map[0], m, f.package)
                _, v = self.ctype(x.map[1], m, f.package)
                T = '::google::protobuf::Map<%s, %s>' % (k, v)
                p(I + '%s const& %s::%s() const { return f_%s; }' % (T, c, a, a))
                p(I + '%s* %s::mutable_%s() { return &f_%s; }' % (T, c, a, a))
                p(I + 'int %s::%s_size() const { return static_cast<int>(f_%s.size()); }' % (c, a, a))
                p(I + 'void %s::clear_%s() { f_%s.clear(); }' % (c, a, a))
                continue
            kind, t = self.ctype(x.type, m, f.package)
            if x.label == 'repeated':
                R = '::google::protobuf::Repeated%sField<%s>' % ('Ptr' if kind in ('msg', 'str') else '', t)
                if kind in ('msg', 'str'):
                    p(I + '%s const& %s::%s(int i) const { return f_%s[i]; }' % (t, c, a, a))
                    p(I + '%s* %s::mutable_%s(int i) { return &f_%s[i]; }' % (t, c, a, a))
                    p(I + '%s* %s::add_%s() { return f_%s.Add(); }' % (t, c, a, a))
                    if kind == 'str':
                        p(I + 'void %s::add_%s(std::string_view v) { *f_%s.Add() = std::string(v); }' % (c, a, a))
                        p(I + 'void %s::set_%s(int i, std::string_view v) { f_%s[i] = std::string(v); }' % (c, a, a))
                else:
                    p(I + '%s %s::%s(int i) const { return f_%s[i]; }' % (t, c, a, a))
                    p(I + 'void %s::set_%s(int i, %s v) { f_%s[i] = v; }' % (c, a, t, a))
                    p(I + 'void %s::add_%s(%s v) { f_%s.Add(v); }' % (c, a, t, a))
                p(I + '%s const& %s::%s() const { return f_%s; }' % (R, c, a, a))
                p(I + '%s* %s::mutable_%s() { return &f_%s; }' % (R, c, a, a))
                p(I + 'int %s::%s_size() const { return static_cast<int>(f_%s.size()); }' % (c, a, a))
                p(I + 'void %s::clear_%s() { f_%s.Clear(); }' % (c, a, a))
                continue
            sw = ''
            if x.oneof:
                sw = 'if (%s_case_ != %d) { clear_%s(); %s_case_ = %d; } ' % (x.oneof, x.number, x.oneof, x.oneof, x.number)
            if kind == 'msg':
                p(I + 'bool %s::has_%s() const { return f_%s != nullptr; }' % (c, a, a))
                p(I + '%s const& %s::%s() const { return f_%s ? *f_%s : %s::default_instance(); }' % (t, c, a, a, a, t))
                p(I + '%s* %s::mutable_%s() { %sif (!f_%s) f_%s.reset(new %s); return f_%s.get(); }' % (t, c, a, sw, a, a, t, a))
                p(I + '%s* %s::release_%s() { %sreturn f_%s.release(); }' % (t, c, a, ('if (has_%s()) %s_case_ = 0; ' % (a, x.oneof)) if x.oneof else '', a))
                p(I + 'void %s::set_allocated_%s(%s* v) { %sf_%s.reset(v); }' % (c, a, t, sw, a))
            else:
                p(I + 'bool %s::has_%s() const { return h_%s; }' % (c, a, a))
                if kind == 'str':
                    p(I + 'std::string const& %s::%s() const { return f_%s; }' % (c, a, a))
                    p(I + 'std::string* %s::mutable_%s() { %sh_%s = true; return &f_%s; }' % (c, a, sw, a, a))
                    p(I + 'void %s::set_%s(std::string_view v) { %sh_%s = true; f_%s = std::string(v); }' % (c, a, sw, a, a))
                    p(I + 'void %s::set_%s(void const* v, std::size_t n) { %sh_%s = true; f_%s = std::string(static_cast<char const*>(v), n); }' % (c, a, sw, a, a))
                else:
                    p(I + '%s %s::%s() const { return f_%s; }' % (t, c, a, a))
                    p(I + 'void %s::set_%s(%s v) { %sh_%s = true; f_%s = v; }' % (c, a, t, sw, a, a))
            if x.oneof:
                p(I + 'void %s::clear_%s() { if (%s_case_ == %d) clear_%s(); }' % (c, a, x.oneof, x.number, x.oneof))
            elif kind == 'msg':
                p(I + 'void %s::clear_%s() { f_%s.reset(); }' % (c, a, a))
            else:
                p(I + 'void %s::clear_%s() { h_%s = false; f_%s = %s{%s}; }' % (c, a, a, a, t, self.default(x, kind, t)))


def main(repo, out):
    d = os.path.join(repo, 'serialization')
    g = Gen()
    files = {}
    for n in sorted(os.listdir(d)):
        if n.endswith('.proto') and n != "options.proto":
            f = parse(os.path.join(d, n))
            files['serialization/' + n] = f
            g.register(f)
    for n, f in files.items():
        g.emit(f, n, out)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
