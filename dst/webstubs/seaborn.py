"""Placeholder: no plots of metadata are made."""


def set_style(style):
	pass
