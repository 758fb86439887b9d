class TFMessage(object):

  def __init__(self, transforms=()):
    self.transforms = list(transforms)
