__version__ = '2.4'
