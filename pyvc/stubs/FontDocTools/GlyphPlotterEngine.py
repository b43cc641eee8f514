"""Assumed contract of FontDocTools.GlyphPlotterEngine: drawing state with plain setters and a content list."""


class Margins:
    def __init__(self, left, bottom, right, top):
        self.left, self.bottom, self.right, self.top = left, bottom, right, top


class CoordinateSystem:
    frame, frameMargins, content, contentMargins = range(4)


class PaintMode:
    fill, stroke, fillAndStroke = range(3)


class _BoundsAggregator:
    def __init__(self): self.bounds = None
    def addBounds(self, bounds): self.bounds = bounds


class GlyphPlotterEngine:
    def __init__(self):
        self._boundsAggregator = _BoundsAggregator()
        self._contentMargins = self._frameMargins = Margins(0, 0, 0, 0)
        self._labelFont, self._labelFontSize = "font", 0
        self._fillColor, self._fillOpacity = "fillColor0", "fillOpacity0"
        self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash = "width0", "strokeColor0", "strokeOpacity0", "dash0"
        self._content = []
        self._pen = (0, 0)
        self._startPoint = (0, 0)

    def setContentMargins(self, m): self._contentMargins = m
    def setFrameMargins(self, m): self._frameMargins = m
    def setLabelFontSize(self, a, b): self._labelFontSize = a
    def setFillColor(self, c): self._fillColor = c
    def setFillOpacity(self, o): self._fillOpacity = o
    def setStrokeWidth(self, w): self._strokeWidth = w
    def setStrokeColor(self, c): self._strokeColor = c
    def setStrokeOpacity(self, o): self._strokeOpacity = o
    def setStrokeDash(self, d): self._strokeDash = d

    def moveToXY(self, x, y):
        self._pen = (x, y)
        self._startPoint = (x, y)

    def _fillAttributes(self): return f"FILL[{self._fillColor}|{self._fillOpacity}]"

    def _strokeAttributes(self):
        return f"STROKE[{self._strokeWidth}|{self._strokeColor}|{self._strokeOpacity}|{self._strokeDash}]"

    def drawCircle(self, coordinates, x, y, radius, paintMode): self._content.append(("circle", coordinates, x, y, radius, paintMode, self._fillColor, self._strokeColor))
    def drawLabel(self, coordinates, x, y, *rest): self._content.append(("label", coordinates, x, y, rest))
    def drawArrow(self, coordinates, *rest): self._content.append(("arrow", coordinates, rest))
