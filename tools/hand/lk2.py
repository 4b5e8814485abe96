# target: ocelot/transformations/locations/linking.py
def _contains(consumer, supplier, found, consumer_row, supplier_row):
    child = supplier_row if supplier == 'RoW' else supplier
    resolved = consumer_row if consumer == 'RoW' else None
    return topology.contains(parent=consumer, child=child, subtract=found, resolved_row=resolved)


def _inside(loc, ordered, consumer_row, supplier_row):
    """Non-overlapping locations inside ``loc``"""
    found = []
    for candidate in ordered:
        if _contains(loc, candidate, found, consumer_row, supplier_row):
            found.append(candidate)
    return found


def _smallest_around(loc, ordered, consumer_row, supplier_row):
    for candidate in reversed(ordered):
        if _contains(candidate, loc, [], supplier_row, consumer_row):
            return [candidate]
    return []


def link_consumers_to_markets(data):
    def by_field(field, kinds):
        return toolz.groupby(field, [ds for ds in data if ds['type'] in kinds])

    markets_mapping = by_field('reference product', ("market activity", "market group"))
    ma_mapping = by_field('name', ("market activity",))
    ta_mapping = by_field('name', ("transforming activity",))

    def annotate(exc, ds):
        exc = annotate_exchange(exc, ds)
        exc['production volume'] = {'amount': production_volume(ds, 0)}
        return exc

    for ds in data:
        if ds['type'] == "market group":
            continue
        loc = ds['location']
        consumer_row = None
        if loc == 'RoW':
            dct = ta_mapping if ds['type'] == 'transforming activity' else ma_mapping
            consumer_row = topology.resolve_row([x['location'] for x in dct[ds['name']]])

        todo = [exc for exc in ds['exchanges'] if unlinked(exc)]
        for exc in todo:
            name = exc['name']
            if name not in markets_mapping:
                if name == 'refinery gas':
                    continue
                raise MissingSupplier("No markets found for product {}".format(name))
            candidates = markets_mapping[name]
            markets = {x['location']: x for x in candidates if x['type'] == 'market activity'}
            market_groups = {x['location']: x for x in candidates if x['type'] == 'market group'}

            supplier_row = topology.resolve_row(markets) if 'RoW' in markets else set()
            ordered = topology.ordered_dependencies(
                [{'location': l} for l in set(markets) | set(market_groups)],
                supplier_row
            )

            found = _inside(loc, ordered, consumer_row, supplier_row)
            if not found:
                found = _smallest_around(loc, ordered, consumer_row, supplier_row)
            to_add = [markets[c] if c in markets else market_groups[c] for c in found]

            if len(to_add) == 1:
                obj = to_add[0]
                exc['code'] = obj['code']
                message = "Link complete input of {} '{}' from '{}' ({})"
                detailed.info({
                    'ds': ds,
                    'message': message.format(exc['name'], exc['amount'], obj['name'], obj['location']),
                    'function': 'link_consumers_to_markets'
                })
                continue
            if not to_add:
                ds.pop('suppliers', None)
                continue
            ds['suppliers'] = [annotate(exc, obj) for obj in to_add]
            for e in ds['suppliers']:
                logger.info({
                    'type': 'table element',
                    'data': (ds['name'], ds['location'], e['location'])
                })
                message = "Link consumption input of {} from '{}' ({})"
                detailed.info({
                    'ds': ds,
                    'message': message.format(exc['name'], e['name'], e['location']),
                    'function': 'link_consumers_to_markets'
                })
            allocate_suppliers(ds, is_market=False, exc=exc)
            del ds['suppliers']
    return data
