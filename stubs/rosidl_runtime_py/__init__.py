"""Stand-in for the ROS package rosidl_runtime_py (not installed in this sandbox).

Re-implements the handful of functions ros_bt_py calls, following upstream's behaviour.
"""
from . import utilities
from .set_message import set_message_fields
from .convert import message_to_ordereddict, message_to_yaml


def get_interface_packages():
    return {}


def get_message_interfaces(packages=None):
    return {}


def get_service_interfaces(packages=None):
    return {}


def get_action_interfaces(packages=None):
    return {}
