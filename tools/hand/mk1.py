# target: ocelot/transformations/locations/markets.py
def _copy_fields(source, fields):
    return dict((name, source[name]) for name in fields if name in source)


def annotate_exchange(exc, ds):
    """Copy."""
    annotated = deepcopy(exc)
    annotated.update(_copy_fields(ds, ('location', 'code', 'technology level')))
    annotated.update(activity=ds['name'])
    return annotated


def _contained_suppliers(group, location):
    """Suppliers in ``group`` inside ``location``, ordered by location"""
    by_location = {}
    for obj in group:
        by_location[obj['location']] = obj
    row = topology.resolve_row([o['location'] for o in group])
    inside = topology.contained(location, resolved_row=row)
    return [by_location[key] for key in sorted(by_location) if key in inside]


@no_geo_duplicates
def apportion_market_suppliers_to_consumers(consumers, suppliers):
    locations = [obj['location'] for obj in consumers]
    consumers_row = topology.resolve_row(locations)

    for consumer in consumers:
        consumer.setdefault('suppliers', [])
        is_row = consumer['location'] == 'RoW'
        location = consumers_row if is_row else consumer['location']

        groups = toolz.groupby('name', suppliers)
        for group in groups.values():
            no_overlaps(group)
            for obj in _contained_suppliers(group, location):
                rp = get_single_reference_product(obj)
                consumer['suppliers'].append(annotate_exchange(rp, obj))


def add_suppliers_to_markets(data, from_type="transforming activity",
                             to_type="market activity"):
    candidates = [ds for ds in data if ds['type'] == from_type or ds['type'] == to_type]

    for datasets in toolz.groupby("reference product", candidates).values():
        suppliers = []
        consumers = []
        for ds in datasets:
            if ds['type'] == from_type:
                suppliers.append(ds)
            if ds['type'] == to_type and not ds.get('suppliers'):
                consumers.append(ds)
        if consumers:
            if to_type == 'market activity':
                no_overlaps(consumers)
            apportion_market_suppliers_to_consumers(consumers, suppliers)
    return data


def allocate_all_market_suppliers(data, kind="market activity"):
    for ds in data:
        if ds['type'] != kind:
            continue
        allocate_suppliers(ds)
    return data


def delete_suppliers_list(data):
    for ds in data:
        ds.pop('suppliers', None)
    return data
