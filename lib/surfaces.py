"""Elevation models for the checks."""

from aws.osml.photogrammetry import ElevationModel


class Nowhere(ElevationModel):
    """an elevation model without coverage leaves the coordinate unchanged"""

    def set_elevation(self, c):
        return False

    def describe_region(self, c):
        return None
