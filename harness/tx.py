# A model of the parts of Twisted and of App Engine's webapp that the gateways use, as documented.
import sys


class AlreadyCalledError(Exception):
    pass


class Failure(object):
    def __init__(self, value=None, type=None, tb=None):
        if value is None:
            self.type, self.value, self.tb = sys.exc_info()
        else:
            self.value, self.type, self.tb = value, type or value.__class__, tb

    def getErrorMessage(self):
        try:
            return str(self.value)
        except Exception:
            return '<%s instance, string conversion failed>' % (self.type.__name__,)

    def check(self, *types):
        for t in types:
            if self.type is t or isinstance(self.value, t):
                return t
        return None

    def trap(self, *types):
        t = self.check(*types)
        if t is None:
            self.raiseException()
        return t

    def raiseException(self):
        raise self.value

    def getBriefTraceback(self):
        return self.getTraceback()

    def getTraceback(self, *args, **kw):
        return 'Traceback (most recent call last):\n%s: %s\n' % (self.type, self.getErrorMessage())


class Deferred(object):
    def __init__(self):
        self.called = False
        self.paused = False
        self.result = None
        self.waiting = []
        self.running = False

    def addCallbacks(self, callback, errback=None, callbackArgs=None, callbackKeywords=None, errbackArgs=None,
                     errbackKeywords=None):
        self.waiting.append(((callback, callbackArgs or (), callbackKeywords or {}), (errback, errbackArgs or (), errbackKeywords or {})))
        if self.called:
            self._run()
        return self

    def addCallback(self, callback, *args, **kw):
        return self.addCallbacks(callback, None, args, kw)

    def addErrback(self, errback, *args, **kw):
        return self.addCallbacks(None, errback, None, None, args, kw)

    def addBoth(self, callback, *args, **kw):
        return self.addCallbacks(callback, callback, args, kw, args, kw)

    def chainDeferred(self, d):
        return self.addCallbacks(d.callback, d.errback)

    def callback(self, result):
        assert not isinstance(result, Deferred)
        self._fire(result)

    def errback(self, fail=None):
        if fail is None:
            fail = Failure()
        elif not isinstance(fail, Failure):
            fail = Failure(fail)
        self._fire(fail)

    def _fire(self, result):
        if self.called:
            raise AlreadyCalledError()
        self.called = True
        self.result = result
        self._run()

    def _resume(self, result):
        # the deferred a callback returned has its result: it goes on here and leaves None there
        self.paused = False
        self.result = result
        self._run()
        return None

    def _run(self):
        if self.running or self.paused:
            return
        while self.waiting:
            pair = self.waiting.pop(0)
            f, args, kw = pair[isinstance(self.result, Failure) and 1 or 0]
            if f is None:
                continue
            self.running = True
            try:
                try:
                    self.result = f(self.result, *args, **kw)
                except:
                    self.result = Failure()
            finally:
                self.running = False
            if isinstance(self.result, Deferred):
                self.paused = True
                self.result.addBoth(self._resume)
                if self.paused:
                    return


def succeed(result):
    d = Deferred()
    d.callback(result)
    return d


def fail(result=None):
    d = Deferred()
    d.errback(result)
    return d


def maybeDeferred(f, *args, **kw):
    try:
        result = f(*args, **kw)
    except:
        return fail(Failure())
    if isinstance(result, Deferred):
        return result
    if isinstance(result, Failure):
        return fail(result)
    return succeed(result)


class DeferredList(Deferred):
    def __init__(self, deferreds, fireOnOneCallback=False, fireOnOneErrback=False, consumeErrors=False):
        assert not fireOnOneCallback
        Deferred.__init__(self)
        self.early, self.consume = fireOnOneErrback, consumeErrors
        deferreds = list(deferreds)
        self.results = [None] * len(deferreds)
        self.left = len(deferreds)
        if not deferreds:
            self.callback(self.results)
        i = 0
        for d in deferreds:
            d.addCallbacks(self._done, self._done, (i, True), None, (i, False))
            i += 1

    def _done(self, result, i, ok):
        self.results[i] = (ok, result)
        self.left -= 1
        if not ok and self.early and not self.called:
            self.errback(result)
        if not self.left and not self.called:
            self.callback(self.results)
        if not ok and self.consume:
            return None
        return result


def gatherResults(deferreds, consumeErrors=False):
    d = DeferredList(deferreds, fireOnOneErrback=True, consumeErrors=consumeErrors)
    d.addCallback(lambda results: [x[1] for x in results])
    return d


class Return(BaseException):
    def __init__(self, value):
        self.value = value


def returnValue(value):
    raise Return(value)


def inlineCallbacks(f):
    def start(*args, **kw):
        done = Deferred()
        gen = f(*args, **kw)

        def step(result):
            while True:
                try:
                    if isinstance(result, Failure):
                        x = gen.throw(result.value)
                    else:
                        x = gen.send(result)
                except StopIteration:
                    done.callback(None)
                    return
                except Return, e:
                    done.callback(e.value)
                    return
                except:
                    done.errback(Failure())
                    return
                if isinstance(x, Deferred):
                    x.addBoth(step)
                    return
                result = x
        step(None)
        return done
    return start


class Reactor(object):
    """work given to threads, and results to come; the schedule says what happens next"""
    def __init__(self):
        self.jobs = []

    def deferToThread(self, f, *args, **kw):
        d = Deferred()

        def job():
            try:
                r = f(*args, **kw)
            except:
                d.errback(Failure())
            else:
                d.callback(r)
        self.jobs.append(job)
        return d

    def later(self, value, error=None):
        """a deferred that gets its value (or error) later"""
        d = Deferred()

        def job():
            if error is not None:
                d.errback(error)
            else:
                d.callback(value)
        self.jobs.append(job)
        return d

    def run(self, s, steps=40):
        """run everything, in every order"""
        n = 0
        while self.jobs:
            n += 1
            s.check(n <= steps, 'endless')
            i = 0
            if len(self.jobs) > 1:
                i = s.choice('next%d' % n, len(self.jobs))
            self.jobs.pop(i)()


class Resource(object):
    def __init__(self):
        self.children = {}


class Request(object):
    """what the gateway uses of a twisted.web.server.Request"""
    def __init__(self, content):
        self.content = content
        self.code = 200
        self.headers = {}
        self.written = []
        self.finished = 0

    def setResponseCode(self, code):
        self.code = code

    def setHeader(self, name, value):
        self.headers[name] = value

    def getHeader(self, name):
        return None

    def write(self, data):
        assert not self.finished
        self.written.append(data)

    def finish(self):
        self.finished += 1
        assert self.finished == 1


NOT_DONE_YET = 1


def install(s):
    r = Reactor()
    s.provide('twisted', {}, [])
    s.provide('twisted.internet', {}, [])
    s.provide('twisted.internet.defer', {'Deferred': Deferred, 'succeed': succeed, 'fail': fail, 'maybeDeferred': maybeDeferred,
                                         'DeferredList': DeferredList, 'AlreadyCalledError': AlreadyCalledError,
                                         'gatherResults': gatherResults, 'inlineCallbacks': inlineCallbacks, 'returnValue': returnValue})
    s.provide('twisted.python', {}, [])
    s.provide('twisted.python.failure', {'Failure': Failure})
    s.provide('twisted.internet.threads', {'deferToThread': r.deferToThread})
    s.provide('twisted.web', {}, [])
    s.provide('twisted.web.resource', {'Resource': Resource})
    s.provide('twisted.web.server', {'NOT_DONE_YET': NOT_DONE_YET})
    return r


# ------------------------------------------------------------------ App Engine's webapp
class Out(object):
    def __init__(self):
        self.data = []

    def write(self, data):
        self.data.append(data)


class WebResponse(object):
    def __init__(self):
        self.out = Out()
        self.headers = {}
        self.status = 200

    def clear(self):
        del self.out.data[:]

    def set_status(self, code, message=None):
        self.status = code


class WebRequest(object):
    def __init__(self, method, body):
        self.method = method
        self.body = body


class RequestHandler(object):
    def initialize(self, request, response):
        self.request = request
        self.response = response

    def error(self, code):
        self.response.set_status(code)
        self.response.clear()


def install_webapp(s):
    s.provide('google', {}, [])
    s.provide('google.appengine', {}, [])
    s.provide('google.appengine.ext', {}, [])
    s.provide('google.appengine.ext.webapp', {'RequestHandler': RequestHandler})
