__all__ = ('apply_allocation_factors', 'choose_allocation_method', 'cleanup_activity_links', 'cutoff_allocation', 'economic_allocation')
RC_STRING = ', Recycled Content cut-off'
from .allocation import choose_allocation_method, cutoff_allocation
from .economic import economic_allocation
from .utils import apply_allocation_factors
from .wastes import flip_non_allocatable_byproducts, handle_waste_outputs, rename_recycled_content_products_after_linking
from .markets import adjust_market_signs_for_allocatable_products
from ...collection import Collection
from ..activity_links import check_activity_link_validity
from .cleanup import drop_rp_activity_links, drop_zero_amount_activity_links, remove_consequential_exchanges
cleanup_activity_links = Collection('Cleanup hard (activity) links', drop_rp_activity_links, drop_zero_amount_activity_links)
