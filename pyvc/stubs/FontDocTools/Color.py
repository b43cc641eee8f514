"""Assumed contract of FontDocTools.Color.Color: it stores three colour components."""


class Color:
    def __init__(self, red, green, blue):
        self.red, self.green, self.blue = red, green, blue

    @property
    def components(self):
        return (self.red, self.green, self.blue)

    def __str__(self):
        return f"rgb({self.red},{self.green},{self.blue})"
