"""A stand-in for the parts of a browser page the Python executor touches, with morphdom's algorithm."""


class Node:
    def __init__(self):
        self.parentNode = None
        self.childNodes = []

    def _detach(self):
        if self.parentNode is not None:
            i = next(i for i, c in enumerate(self.parentNode.childNodes) if c is self)
            del self.parentNode.childNodes[i]
            self.parentNode = None

    def remove(self):
        self._detach()

    def appendChild(self, c):
        c._detach()
        self.childNodes.append(c)
        c.parentNode = self
        return c

    def insertBefore(self, c, ref):
        if ref is None:
            return self.appendChild(c)
        c._detach()
        i = next(i for i, x in enumerate(self.childNodes) if x is ref)
        self.childNodes.insert(i, c)
        c.parentNode = self
        return c

    def removeChild(self, c):
        if c.parentNode is not self:
            raise ValueError("not a child")
        c._detach()
        return c

    def replaceChildren(self, *new):
        for c in list(self.childNodes):
            c._detach()
        for c in new:
            self.appendChild(c)

    @property
    def firstChild(self):
        return self.childNodes[0] if self.childNodes else None

    @property
    def children(self):
        return [c for c in self.childNodes if isinstance(c, Element)]

    @property
    def nextSibling(self):
        if self.parentNode is None:
            return None
        s = self.parentNode.childNodes
        i = next(i for i, c in enumerate(s) if c is self)
        return s[i + 1] if i + 1 < len(s) else None

    @property
    def parentElement(self):
        return self.parentNode

    @property
    def isConnected(self):
        n = self
        while n.parentNode is not None:
            n = n.parentNode
        return isinstance(n, Document)

    def walk(self):
        yield self
        for c in list(self.childNodes):
            yield from c.walk()


class Text(Node):
    nodeType = 3
    nodeName = "#text"

    def __init__(self, data):
        super().__init__()
        self.nodeValue = js_string(data)


def js_string(v):
    """What JavaScript makes of a value it uses as a string."""
    if v is None:
        return "undefined"
    if v is True or v is False:
        return str(v).lower()
    if isinstance(v, float) and v == int(v) and abs(v) < 1e21:
        return str(int(v))
    return str(v)


LENGTHS = {"width", "marginLeft", "margin", "fontSize"}


class Style:
    def __init__(self, el):
        object.__setattr__(self, "_el", el)

    def __setattr__(self, name, value):
        if value is None or name.startswith("--"):
            return
        v = js_string(value)
        if name in LENGTHS and v != "0" and v.replace(".", "", 1).isdigit():
            return  # invalid
        self._set(name, v)

    def _set(self, name, v):
        self._el._style[name] = v
        if not self._el._style[name]:
            del self._el._style[name]
        self._el._sync()

    def setProperty(self, name, value):
        if name.startswith("--"):
            self._set(name, js_string(value))
        elif "-" in name or name.islower():
            head, *tail = name.split("-")
            setattr(self, head + "".join(map(str.capitalize, tail)), value)

    def __getattr__(self, name):
        return self._el._style.get(name, "")


class Dataset:
    def __init__(self, el):
        object.__setattr__(self, "_el", el)

    def __getattr__(self, name):
        n = "data-" + "".join("-" + c.lower() if c.isupper() else c for c in name)
        if n not in self._el.attrs:
            raise AttributeError(name)
        return self._el.attrs[n]


HTML = "http://www.w3.org/1999/xhtml"
SVG = "http://www.w3.org/2000/svg"
MATHML = "http://www.w3.org/1998/Math/MathML"


class Element(Node):
    nodeType = 1

    def __init__(self, tag, ns=HTML):
        super().__init__()
        self.namespaceURI = ns
        self.localName = self.tag = tag
        self.nodeName = self.tagName = tag.upper() if ns == HTML else tag
        self.attrs = {}
        self._style = {}
        self.listeners = []

    def _sync(self):
        if self._style:
            self.attrs["style"] = "; ".join(f"{k}: {v}" for k, v in sorted(self._style.items()))
        else:
            self.attrs.pop("style", None)

    @property
    def style(self):
        return Style(self)

    @property
    def dataset(self):
        return Dataset(self)

    @property
    def className(self):
        return self.attrs.get("class", "")

    @className.setter
    def className(self, v):
        if self.namespaceURI == SVG:
            raise TypeError("Cannot set property className of #<SVGElement> which has only a getter")
        self.attrs["class"] = js_string(v)

    @property
    def id(self):
        return self.attrs.get("id", "")

    @id.setter
    def id(self, v):
        self.attrs["id"] = js_string(v)

    def _name(self, k):
        return k.lower() if self.namespaceURI == HTML else k

    def setAttribute(self, k, v):
        k = self._name(k)
        self.attrs[k] = js_string(v)
        if k == "style":
            self._style = dict(x.split(": ", 1) for x in self.attrs[k].split("; ") if ": " in x)

    def getAttribute(self, k):
        return self.attrs.get(self._name(k))

    def hasAttribute(self, k):
        return self._name(k) in self.attrs

    def removeAttribute(self, k):
        k = self._name(k)
        self.attrs.pop(k, None)
        if k == "style":
            self._style = {}

    def addEventListener(self, name, fn, *_):
        if (name, fn) not in self.listeners:
            self.listeners.append((name, fn))

    def removeEventListener(self, name, fn, *_):
        if (name, fn) in self.listeners:
            self.listeners.remove((name, fn))

    def cloneNode(self, deep=False):
        e = Element(self.tag, self.namespaceURI)
        e.attrs, e._style = dict(self.attrs), dict(self._style)
        if deep:
            for c in self.childNodes:
                e.appendChild(c.cloneNode(True) if isinstance(c, Element) else Text(c.nodeValue))
        return e

    def _matches(self, sel):
        if sel.startswith("."):
            return sel[1:] in self.className.split()
        if sel.startswith("#"):
            return self.id == sel[1:]
        if sel.startswith("["):
            k, _, v = sel[1:-1].partition("=")
            return k in self.attrs and (not v or self.attrs[k] == v.strip("'\""))
        return sel == "*" or self.tag == sel.lower()

    def querySelectorAll(self, sel):
        sels = [s.strip() for s in sel.split(",")]
        return [n for n in self.walk() if n is not self and isinstance(n, Element) and any(n._matches(s) for s in sels)]

    def querySelector(self, sel):
        return next(iter(self.querySelectorAll(sel)), None)

    def dispatch(self, event):
        """Bubble an event up from here."""
        event.target = self
        n = self
        while isinstance(n, Element):
            event.currentTarget = n
            for name, fn in list(n.listeners):
                if name == event.type:
                    fn(event)
            if event.stopped:
                break
            n = n.parentNode
        event.currentTarget = None


class Document(Element):
    def __init__(self):
        super().__init__("html")
        self.body = self.appendChild(Element("body"))

    def createElement(self, tag):
        return Element(tag.lower())

    def createElementNS(self, ns, tag):
        return Element(tag, ns)

    def createTextNode(self, s):
        return Text(s)

    def getElementById(self, i):
        return next((n for n in self.walk() if isinstance(n, Element) and n.id == i), None)


class Event:
    def __init__(self, type, n):
        self.type, self.n = type, n
        self.stopped = self.prevented = False
        self.target = self.currentTarget = None

    def preventDefault(self):
        self.prevented = True

    def stopPropagation(self):
        self.stopped = True

    def __repr__(self):
        return f"<event {self.n}>"


def morphdom(a, b):
    """Makes element a like b, keeping what is compatible (morphdom 2.7 without options)."""
    by_key, keyed_removals = {}, []

    def same_name(x, y):
        return x.nodeName == y.nodeName or x.nodeName[:1].isupper() and y.nodeName[:1].islower() and x.nodeName == y.nodeName.upper() \
            or y.nodeName[:1].isupper() and x.nodeName[:1].islower() and y.nodeName == x.nodeName.upper()

    key = lambda n: (n.getAttribute("id") or n.id) if isinstance(n, Element) else None

    def index(n):
        for c in n.childNodes:
            if key(c):
                by_key[key(c)] = c
            index(c)
    index(a)

    def walk_discarded(n, skip_keyed):
        for c in list(n.childNodes):
            if skip_keyed and key(c):
                keyed_removals.append(key(c))
            elif c.firstChild is not None:
                walk_discarded(c, skip_keyed)

    def remove(n, parent, skip_keyed):
        parent.removeChild(n)
        walk_discarded(n, skip_keyed)

    def added(n):
        for c in list(n.childNodes):
            k = key(c)
            old = by_key.get(k) if k else None
            if old is not None and same_name(old, c):
                n.insertBefore(old, c)
                c._detach()
                morph(old, c)
            else:
                added(c)

    def morph(f, t):
        k = key(t)
        if k:
            by_key.pop(k, None)
        for n, v in t.attrs.items():
            f.attrs[n] = v
        for n in list(f.attrs):
            if n not in t.attrs:
                del f.attrs[n]
        f._style = dict(t._style)
        if f.nodeName != "TEXTAREA":
            kids(f, t)
        else:
            f.replaceChildren(*[Text(c.nodeValue) for c in t.childNodes])

    def kids(f, t):
        ct, cf = t.firstChild, f.firstChild
        while ct is not None:
            nt, kt, done = ct.nextSibling, key(ct), False
            nf = None
            while cf is not None:
                nf = cf.nextSibling
                kf = key(cf)
                ok = None
                if cf.nodeType == ct.nodeType:
                    if cf.nodeType == 1:
                        if kt:
                            if kt != kf:
                                m = by_key.get(kt)
                                if m is not None:
                                    if nf is m:
                                        ok = False
                                    else:
                                        f.insertBefore(m, cf)
                                        if kf:
                                            keyed_removals.append(kf)
                                        else:
                                            remove(cf, f, True)
                                        cf = m
                                        kf = key(cf)
                                else:
                                    ok = False
                        elif kf:
                            ok = False
                        ok = ok is not False and same_name(cf, ct)
                        if ok:
                            morph(cf, ct)
                    else:
                        ok = True
                        cf.nodeValue = ct.nodeValue
                if ok:
                    ct, cf, done = nt, nf, True
                    break
                if kf:
                    keyed_removals.append(kf)
                else:
                    remove(cf, f, True)
                cf = nf
            if done:
                continue
            m = by_key.get(kt) if kt else None
            if m is not None and same_name(m, ct):
                f.appendChild(m)
                morph(m, ct)
            else:
                f.appendChild(ct)
                added(ct)
            ct, cf = nt, nf
        while cf is not None:
            n = cf.nextSibling
            k = key(cf)
            if k:
                keyed_removals.append(k)
            else:
                remove(cf, f, True)
            cf = n

    morph(a, b)
    for k in keyed_removals:
        n = by_key.get(k)
        if n is not None and n.parentNode is not None:
            remove(n, n.parentNode, False)
    return a
