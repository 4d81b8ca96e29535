"""A stand-in for PyROOT: the parts of TH1D and TProfile that can be set and read bin by bin.

Written from the documentation of ROOT 6 (TH1, TProfile): what the calls store and what the getters make of it.
"""

import math
import sys
import types


class TH1D(object):
    def __init__(self, name, title, nbins, low, high):
        for x in (name, title):
            if not isinstance(x, str):
                raise TypeError("name and title are strings")
        if isinstance(nbins, float) or nbins != int(nbins) or nbins < 1:
            raise TypeError("could not convert argument to int")
        self._name, self._title = name, title
        self._n, self._low, self._high = int(nbins), float(low), float(high)
        self._content = [0.0] * (self._n + 2)
        self._sumw2 = None
        self._entries = 0.0

    def _bin(self, i):
        if i != int(i):
            raise TypeError("not an integer")
        return int(i)

    def _array(self, values):
        out = [float(x) for x in values]
        if len(out) < self._n + 2:
            raise IndexError("ROOT would read past the end of the array")
        return out

    def GetName(self):
        return self._name

    def GetTitle(self):
        return self._title

    def GetNbinsX(self):
        return self._n

    def limits(self):
        return self._low, self._high

    def SetEntries(self, n):
        self._entries = float(n)

    def GetEntries(self):
        return self._entries

    def SetContent(self, values):
        self._entries = self._n + 2
        self._content = self._array(values)[:self._n + 2]

    def Sumw2(self):
        if self._sumw2 is None:
            self._sumw2 = [abs(x) for x in self._content]

    def SetError(self, values):
        for i, x in enumerate(self._array(values)[:self._n + 2]):
            self.SetBinError(i, x)

    def SetBinContent(self, i, x):
        i = self._bin(i)
        self._entries += 1
        if 0 <= i < self._n + 2:
            self._content[i] = float(x)

    def SetBinError(self, i, x):
        i = self._bin(i)
        self.Sumw2()
        if 0 <= i < self._n + 2:
            self._sumw2[i] = float(x) * float(x)

    def GetBinContent(self, i):
        return self._content[i]

    def GetBinError(self, i):
        if self._sumw2 is not None:
            return math.sqrt(self._sumw2[i])
        return math.sqrt(abs(self._content[i]))


class TProfile(TH1D):
    def __init__(self, *args):
        TH1D.__init__(self, *args)
        self._sumw2 = [0.0] * (self._n + 2)      # sums of w*y*y
        self._binentries = [0.0] * (self._n + 2)

    def SetBinEntries(self, i, n):
        i = self._bin(i)
        if 0 <= i < self._n + 2:
            self._binentries[i] = float(n)

    def GetBinEntries(self, i):
        return self._binentries[i]

    def SetContent(self, values):
        raise NotImplementedError

    def GetBinContent(self, i):
        if self._binentries[i] == 0:
            return 0.0
        return self._content[i] / self._binentries[i]

    def GetBinError(self, i):
        n = self._binentries[i]
        if n == 0:
            return 0.0
        mean = self._content[i] / n
        return math.sqrt(abs(self._sumw2[i] / n - mean * mean)) / math.sqrt(n)


def install():
    mod = types.ModuleType("ROOT")
    mod.TH1D = TH1D
    mod.TProfile = TProfile
    sys.modules["ROOT"] = mod
    return mod
