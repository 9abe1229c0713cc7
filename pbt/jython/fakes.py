# -*- coding: utf-8 -*-
"""An in-memory reactor, installed as twisted.internet.reactor.

Every case gets a fresh one; what the imported modules hold is a proxy to it.
Time moves only when a scenario says so, through the delayed calls in order.
"""
import sys
import types

from server import V, ERRORS

from twisted.internet import address, base, defer, error, main, task
from twisted.internet import abstract
from twisted.internet.interfaces import (
    IReactorTCP, IReactorUDP, IReactorTime, IReactorThreads, ITCPTransport,
    IReactorCore, IReactorPluggableResolver)
from twisted.python import failure, log
from zope.interface import implements


class Transport(object):
    """One end of a TCP connection; what is written piles up in C{chunks}."""

    implements(ITCPTransport)

    def __init__(self, reactor, protocol=None):
        self.reactor = reactor
        self.protocol = protocol
        self.chunks = []
        self.producer = None
        self.streaming = None
        self.connected = True
        self.disconnecting = False
        self.on_lost = None
        self.dead_writes = 0

    def write(self, data):
        if not isinstance(data, str):
            raise TypeError("Data must not be unicode")
        if self.connected and not self.disconnecting:
            self.chunks.append(data)
        else:
            self.dead_writes += 1

    def writeSequence(self, data):
        for item in data:
            self.write(item)

    def value(self):
        return "".join(self.chunks)

    def registerProducer(self, producer, streaming):
        if self.producer is not None:
            raise RuntimeError("Cannot register producer twice")
        if not self.connected:
            producer.stopProducing()
            return
        self.producer = producer
        self.streaming = streaming

    def unregisterProducer(self):
        self.producer = None

    def loseConnection(self):
        if self.connected and not self.disconnecting:
            self.disconnecting = True
            # A streaming producer does not keep the connection open.
            self.reactor.callLater(0, self.lost)

    def abortConnection(self):
        self.lost(error.ConnectionAborted())

    def lost(self, reason=None):
        if not self.connected:
            return
        self.connected = False
        if self.producer is not None:
            producer, self.producer = self.producer, None
            producer.stopProducing()
        reason = failure.Failure(reason or main.CONNECTION_DONE)
        protocol, self.protocol = self.protocol, None
        if protocol is not None:
            protocol.connectionLost(reason)
        if self.on_lost is not None:
            self.on_lost(reason)

    def pauseProducing(self):
        pass

    resumeProducing = stopProducing = pauseProducing

    def getPeer(self):
        return address.IPv4Address("TCP", "192.0.2.1", 4711)

    def getHost(self):
        return address.IPv4Address("TCP", "192.0.2.2", 4712)

    def setTcpNoDelay(self, enabled):
        pass

    def getTcpNoDelay(self):
        return False

    def setTcpKeepAlive(self, enabled):
        pass

    def getTcpKeepAlive(self):
        return False


class Attempt(object):
    """A TCP connection on its way, or refused, or made."""

    def __init__(self, connector):
        self.connector = connector
        self.transport = None
        self.done = False

    def failIfNotConnected(self, err):
        if not self.done:
            self.done = True
            self.connector.connectionFailed(failure.Failure(err))

    def loseConnection(self):
        if self.transport is not None:
            self.transport.loseConnection()


class Connector(base.BaseConnector):

    def __init__(self, host, port, factory, timeout, reactor):
        self.host, self.port = host, port
        base.BaseConnector.__init__(self, factory, timeout, reactor)

    def _makeTransport(self):
        attempt = Attempt(self)
        self.reactor.attempts.append(attempt)
        return attempt

    def getDestination(self):
        return address.IPv4Address("TCP", self.host, self.port)


class UDPPort(object):
    def __init__(self, reactor, port, protocol, size=8192):
        self.reactor, self.port, self.protocol = reactor, port, protocol
        self.size = size
        self.sent = []
        self.listening = True
        self.refuse = None
        protocol.makeConnection(self)

    def deliver(self, data, addr):
        """A datagram arrives; what does not fit is cut off."""
        self.protocol.datagramReceived(data[:self.size], addr)

    def write(self, data, addr=None):
        if self.refuse is not None:
            raise self.refuse
        if not isinstance(data, str):
            raise TypeError("Data must not be unicode")
        self.sent.append((data, addr))
        return len(data)

    def getHost(self):
        return address.IPv4Address("UDP", "0.0.0.0", self.port)

    def stopListening(self):
        if self.listening:
            self.listening = False
            self.protocol.doStop()
        return defer.succeed(None)

    loseConnection = stopListening


class TCPPort(object):
    def __init__(self, reactor, port, factory):
        self.reactor, self.port, self.factory = reactor, port, factory
        self.listening = True
        factory.doStart()

    def getHost(self):
        return address.IPv4Address("TCP", "0.0.0.0", self.port)

    def stopListening(self):
        if self.listening:
            self.listening = False
            self.factory.doStop()
        return defer.succeed(None)

    loseConnection = stopListening

    def accept(self):
        """A client connects: the transport of the server's side."""
        protocol = self.factory.buildProtocol(
            address.IPv4Address("TCP", "192.0.2.1", 4711))
        if protocol is None:
            return None
        transport = Transport(self.reactor, protocol)
        protocol.makeConnection(transport)
        return transport


class Reactor(task.Clock):

    implements(IReactorTCP, IReactorUDP, IReactorTime, IReactorThreads,
               IReactorCore, IReactorPluggableResolver)

    running = True

    def __init__(self, now=1000000.0):
        task.Clock.__init__(self)
        self.rightNow = now
        self.attempts = []
        self.udp = []
        self.tcp = []
        self.lookups = []
        self.from_thread = []
        self.readers, self.writers = [], []

    # -- time
    def callFromThread(self, function, *args, **kwargs):
        self.callLater(0, function, *args, **kwargs)

    def callWhenRunning(self, function, *args, **kwargs):
        function(*args, **kwargs)

    def callInThread(self, function, *args, **kwargs):
        function(*args, **kwargs)

    def addSystemEventTrigger(self, *args, **kwargs):
        return None

    def removeSystemEventTrigger(self, trigger):
        pass

    def stop(self):
        pass

    def turn(self, limit=None):
        """Run what is due now, as one turn of the reactor after another."""
        self.run_until(self.rightNow, limit)

    def run_until(self, when, limit=None):
        """Run delayed calls in order until C{when}; at most C{limit}."""
        done = 0
        while limit is None or done < limit:
            self._sortCalls()
            # The cooperator asks for a hundredth of a microsecond.
            if not self.calls or self.calls[0].getTime() > when + 1e-6:
                break
            call = self.calls.pop(0)
            self.rightNow = max(self.rightNow, min(when, call.getTime()))
            call.called = 1
            done += 1
            if done > 200000:
                raise RuntimeError("the reactor never comes to rest")
            try:
                call.func(*call.args, **call.kw)
            except:
                log.err()
        else:
            return done
        self.rightNow = max(self.rightNow, when)
        return done

    # -- network
    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        connector = Connector(host, port, factory, timeout, self)
        connector.connect()
        return connector

    def listenTCP(self, port, factory, backlog=50, interface=""):
        port = TCPPort(self, port, factory)
        self.tcp.append(port)
        return port

    def listenUDP(self, port, protocol, interface="", maxPacketSize=8192):
        port = UDPPort(self, port, protocol, maxPacketSize)
        self.udp.append(port)
        return port

    def resolve(self, name, timeout=(1, 3, 11, 45)):
        if abstract.isIPAddress(name):
            return defer.succeed(name)
        result = defer.Deferred()
        self.lookups.append((name, result))
        return result

    def getReaders(self):
        return list(self.readers)

    def getWriters(self):
        return list(self.writers)

    # -- what the world does
    def pending(self):
        return [a for a in self.attempts if not a.done]

    def accept(self, attempt):
        """The other side accepts: the transport of the client's side."""
        attempt.done = True
        connector = attempt.connector
        transport = Transport(self)
        attempt.transport = transport
        protocol = connector.buildProtocol(connector.getDestination())
        if protocol is None:
            transport.connected = False
            connector.connectionLost(failure.Failure(main.CONNECTION_DONE))
            return None
        transport.protocol = protocol
        transport.on_lost = connector.connectionLost
        protocol.makeConnection(transport)
        return transport

    def refuse(self, attempt):
        attempt.failIfNotConnected(error.ConnectionRefusedError("refused"))


class Proxy(object):
    """Stands for the reactor of the current case."""

    def __init__(self):
        self.__dict__["current"] = Reactor()

    def __getattr__(self, name):
        return getattr(self.__dict__["current"], name)

    def __setattr__(self, name, value):
        setattr(self.__dict__["current"], name, value)


REACTOR = Proxy()


def fresh(now=1000000.0):
    """A new reactor for this case; the virtual clock follows it."""
    reactor = Reactor(now)
    REACTOR.__dict__["current"] = reactor
    V.source = reactor.seconds
    return reactor


def install():
    from twisted import internet
    sys.modules["twisted.internet.reactor"] = REACTOR
    internet.reactor = REACTOR


install()
