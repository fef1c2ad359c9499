# properties that are claimed

prop('C01', 'Integers keep their value on the wire and in the state store',
     'Every integer a contract stores, passes or receives is encoded as the shortest big-endian two\'s complement form (zero '
     'is one zero byte), and decoding an encoding gives the same integer back. Decoding any non-empty byte string gives the '
     'integer it denotes, so distinct integers never share an encoding.',
     ['inputs'], 'every integer of up to 512 bits, every byte string of up to 64 bytes',
     'The tests try a handful of values around the byte boundaries; the sign byte rule must hold for every width.',
     [P + 'ipc/proxy.py', P + 'utils/__init__.py', P + 'iconscore/icon_container_db.py'],
     [('wire codec', P + 'ipc/proxy.py int_to_bytes, bytes_to_int'), ('store codec', P + 'utils/__init__.py'),
      ('container encoding', P + 'iconscore/icon_container_db.py ContainerUtil')])

prop('C02', 'Typed values cross the executor boundary unchanged',
     'Parameters, results and event data of every supported type (none, bool, int, bytes, text, address, list, dictionary, '
     'nested to any shape) arrive on the other side of the executor connection as the same value of the same type. A value of '
     'any other type, or a boolean or integer that is not one, is refused and never replaced by something else.',
     ['inputs'], 'every shape of nested values within the depth bound, every content of the leaves',
     'Tests send one nested example; type confusion (bool/int, bytes/text, contract/account addresses) depends on the value.',
     [P + 'ipc/proxy.py', P + 'pyexec.py', P + 'base/address.py'],
     [('typed encoding', P + 'ipc/proxy.py encode_any, decode_any'), ('address codec', P + 'pyexec.py EECodec')])

prop('C03', 'An address has exactly one text and one byte form',
     'An account or contract address converts to its 42 character text and its 21 byte form and back without change, and two '
     'addresses are equal exactly when kind and body are equal. Text or bytes that are not in one of these forms are refused.',
     ['inputs'], 'every 20 byte body, every text of the examined lengths, every byte string of the examined lengths',
     'Tests use fixed addresses; malformed prefixes, digits and lengths form an unbounded set.',
     [P + 'base/address.py'], [('parsing', P + 'base/address.py Address.from_string, from_bytes, is_icon_address_valid')])

prop('C04', 'Distinct storage entries never share a key',
     'Each variable, dictionary entry, array element and array size of a contract is stored under a key derived, in the '
     'published way, from the container kind, its name and the keys leading to it. Two different entries, however nested and '
     'whatever bytes their names and keys contain, never have the same key.',
     ['inputs', 'programs'], 'names and keys of every length up to the bound and every content, nesting up to three levels',
     'Tests look up a few fixed names; a collision needs an unlucky combination of lengths and contents.',
     [P + 'iconscore/icon_container_db.py', P + 'database/db.py'],
     [('key derivation', P + 'iconscore/icon_container_db.py'), ('path encoding', P + 'database/db.py')])

prop('C05', 'Containers behave as a variable, a dictionary and a list',
     'After any sequence of operations, storage containers return what a plain variable, dictionary or list would return, '
     'including defaults, negative and out-of-range positions, removal and membership. An operation changes only the entry it '
     'names, and a refused operation changes nothing.',
     ['histories', 'inputs'], 'histories of up to three operations with any keys, positions and values',
     'Tests run single operations on fresh containers; the effect of an operation depends on the history before it.',
     [P + 'iconscore/icon_container_db.py', P + 'database/db.py'],
     [('containers', P + 'iconscore/icon_container_db.py VarDB, DictDB, ArrayDB'), ('state access', P + 'database/db.py')])

prop('C06', 'A call never uses more steps than its limit',
     'However a contract spends steps (storage, events, hashing, calls) and whatever it does about failures, the steps '
     'reported for a call never exceed the limit it was given, and a call that would exceed it fails with the out-of-step '
     'status. An operation whose charge does not fit takes no effect, apart from storage changes of a call that is rolled back.',
     ['programs', 'inputs', 'schedules'], 'sequences of operations with any prices, sizes and limits, and any timing of '
     'old-value replies',
     'The limit is crossed at one particular operation for one particular price and limit; tests use round numbers.',
     [P + 'iconscore/icon_score_step.py', P + 'database/db.py', P + 'iconscore/icon_score_context.py', P + 'service_engine.py'],
     [('step counter', P + 'iconscore/icon_score_step.py'), ('storage charges', P + 'database/db.py')])

prop('C07', 'Storage is charged exactly by price table, entry sizes and old values',
     'Reading, setting, replacing and deleting an entry are charged by the price table, the size of the value and the size of '
     'the value it replaces, in both price schemas. The total does not depend on when the service answers with the old values, '
     'so all validators charge the same.',
     ['schedules', 'histories', 'inputs'], 'sequences of storage operations, every price, every size, every delay of the '
     'old-value replies',
     'Old values arrive asynchronously; tests of the counter never exercise the delayed correction of a charge.',
     [P + 'database/db.py', P + 'iconscore/icon_score_step.py', P + 'ipc/proxy.py'],
     [('old-value handling', P + 'database/db.py ContextDatabase'), ('pending replies', P + 'ipc/proxy.py set_value'),
      ('prices', P + 'iconscore/icon_score_step.py')])

prop('C08', 'Read-only execution never changes state',
     'During a query, or inside a method declared read-only, no attempt to store, delete, emit an event or move coins '
     'succeeds, directly or through any container or nested call, and the attempt is reported to the contract as a failure. '
     'After a read-only call returns, the writable call that made it can write again.',
     ['programs', 'inputs'], 'every writing operation, any value, nestings of read-only and writable calls',
     'Every way to write has its own guard; tests do not try them below a read-only call.',
     [P + 'iconscore/icon_score_base.py', P + 'iconscore/icon_score_base2.py', P + 'database/db.py',
      P + 'iconscore/icon_score_context.py', P + 'iconscore/icon_score_eventlog.py', P + 'iconscore/internal_call.py'],
     [('guards', P + 'database/db.py, iconscore/icon_score_eventlog.py, iconscore/internal_call.py'),
      ('mode of the context', P + 'iconscore/icon_score_base.py, service_engine.py')])

prop('C09', 'Coins never reach a method that is not payable',
     'A request that carries coins and names a method or fallback not declared payable fails without running any of the '
     'contract\'s code. Payable methods, and any method when no coins are attached, are not affected, and an amount attached '
     'to one request never counts for another.',
     ['inputs', 'programs', 'histories'], 'every method of the example contracts, inherited ones included, every amount',
     'The guard runs per method and amount; tests call with a zero amount only.',
     [P + 'iconscore/icon_score_base.py', P + 'service_engine.py'],
     [('guard', P + 'iconscore/icon_score_base.py __call_method / __check_payable'), ('amount', P + 'service_engine.py')])

prop('C10', 'Only external methods can be called from outside',
     'A request naming anything that the contract does not declare external (a helper, a private or inherited base method, an '
     'attribute, an event, a misspelled name) fails as not found and runs none of the contract\'s code. External methods, and '
     'the install, update and fallback entries through their own names only, are reachable.',
     ['inputs', 'programs'], 'every name within the length bound and every attribute name of the contract objects',
     'Names are attacker controlled text; tests call existing methods.',
     [P + 'iconscore/icon_score_base.py', P + 'iconscore/icon_score_base2.py', P + 'service_engine.py'],
     [('lookup', P + 'iconscore/icon_score_base.py'), ('entries', P + 'service_engine.py')])

prop('C11', 'Every request is answered exactly once and the executor stays usable',
     'However a contract method ends (value, unsupported value, any exception, exit, exhausted steps, recursion), the executor '
     'sends exactly one result for the request, with a failure status if and only if the method failed. Later requests on the '
     'same executor are then served as by a fresh one.',
     ['programs', 'fault_sequences', 'histories'], 'kinds of endings of a method at several nesting depths, and what follows',
     'Tests end methods normally; hostile exceptions and late charges reach other code.',
     [P + 'ipc/proxy.py', P + 'service_engine.py', P + 'pyexec.py', P + 'database/db.py'],
     [('request handling', P + 'ipc/proxy.py __handle_invoke'), ('context stack', P + 'service_engine.py invoke')])

prop('C12', 'Failures keep their status and message, through any number of contracts',
     'A contract failing with a user code is answered with that code within the user range, other failures with the status '
     'of their kind, and the message is kept. A failing callee reaches its caller as an exception with the same status, and a '
     'caller that does not catch it fails with that status.',
     ['inputs', 'programs', 'fault_sequences'], 'every user code, every status from a callee, messages of bounded length',
     'The mapping clamps and shifts codes; tests do not look at the boundaries or at nested failures.',
     [P + 'base/exception.py', P + 'ipc/proxy.py', P + 'service_engine.py', P + 'iconscore/internal_call.py',
      P + 'icon_constant.py'],
     [('codes', P + 'base/exception.py'), ('result of a call', P + 'iconscore/internal_call.py'),
      ('result of a request', P + 'service_engine.py')])

prop('C13', 'Calls between contracts share one step budget exactly',
     'A call made by a contract is offered exactly the steps the caller has left, and the steps the callee used, whether it '
     'succeeds or fails, are charged to the caller exactly once. The total reported for the outer request is the sum of its '
     'own charges and those of all its callees.',
     ['programs', 'inputs', 'schedules'], 'sequences of storage operations and calls, any prices, any limit, any use by '
     'callees, pending replies included',
     'The remaining budget depends on charges still to be corrected when the call is made; tests make no calls.',
     [P + 'iconscore/internal_call.py', P + 'iconscore/icon_score_step.py', P + 'service_engine.py', P + 'ipc/proxy.py'],
     [('limit of a call', P + 'iconscore/internal_call.py'), ('accounting', P + 'iconscore/icon_score_step.py')])

prop('C14', 'A call leaves the executor as the contract wrote it',
     'The receiver, the method name, the arguments and the amount of a call or transfer are those the contract gave. An amount '
     'set for one call through an interface object is sent with that call only, even when the call fails.',
     ['inputs', 'programs', 'histories'], 'every receiver, amount, argument and method name within bounds, several calls '
     'through one interface object',
     'Carrying over an amount needs a history of calls through one object; tests make no calls.',
     [P + 'iconscore/icon_score_base2.py', P + 'iconscore/internal_call.py', P + 'iconscore/icon_score_base.py'],
     [('interface objects', P + 'iconscore/icon_score_base2.py InterfaceScore'), ('calls', P + 'iconscore/internal_call.py')])

prop('C15', 'An event log carries its signature and exactly the arguments given',
     'An emitted event has the declared name and types as signature, the declared number of indexed arguments, and every '
     'argument in order in the encoding of its declared type; it is charged by the price table and its size. An argument of '
     'another type, or a wrong number of them, is refused and emits nothing.',
     ['inputs', 'programs'], 'events of every parameter type, any arguments, both price schemas',
     'Light clients look events up by their indexed form; tests check no emitted event.',
     [P + 'iconscore/icon_score_eventlog.py', P + 'iconscore/icon_score_base.py', P + 'iconscore/icon_score_step.py'],
     [('encoding', P + 'iconscore/icon_score_eventlog.py'), ('declaration', P + 'iconscore/icon_score_base.py eventlog')])

prop('C16', 'The published interface is the declared one and execution agrees with it',
     'For every contract that can be loaded, the published interface lists exactly its external methods, fallback and events, '
     'with their parameters, types, defaults, results and flags. A contract whose declarations are not allowed is refused, '
     'without ending the executor, and a method published as read-only or not payable behaves so.',
     ['programs', 'inputs'], 'methods and events generated over all parameter forms and decorator orders',
     'Tests look at a few examples; types, defaults, flags and inheritance combine.',
     [P + 'iconscore/score_api_generator.py', P + 'iconscore/typing/definition.py', P + 'iconscore/typing/element.py',
      P + 'pyexec.py', P + 'iconscore/icon_score_base.py'],
     [('collection', P + 'iconscore/typing/element.py'), ('description', P + 'iconscore/score_api_generator.py'),
      ('transport', P + 'pyexec.py get_api')])

prop('C17', 'API functions compute what they say and cost what they are priced at',
     'Hashing, signature recovery, address and JSON functions return the standard result for every input they accept and '
     'refuse the others. Each is charged its price and size dependent part before the work, in the order called, and yields '
     'nothing if the charge does not fit.',
     ['inputs', 'programs'], 'data of any content and length, any price, any limit, sequences of functions',
     'Charges depend on length and revision; tests check one hash.',
     [P + 'iconscore/icon_score_base2.py', P + 'iconscore/icon_score_step.py', P + 'iconscore/icon_score_context.py'],
     [('functions', P + 'iconscore/icon_score_base2.py'), ('prices', P + 'iconscore/icon_score_step.py')])

prop('C18', 'Fee sharing is what the contract set last, between 0 and 100',
     'The proportion of fees the executor reports for a request is the last one the contract itself set in it, and nothing if '
     'it set none. Values outside 0 to 100 and settings in queries are refused and change nothing, and a nested call never '
     'changes the proportion of another contract.',
     ['inputs', 'programs'], 'up to three settings of any integer, nested requests',
     'No test sets a proportion; nesting and refusals decide who pays.',
     [P + 'iconscore/icon_score_base.py', P + 'iconscore/icon_score_context.py', P + 'service_engine.py', P + 'ipc/proxy.py'],
     [('setting', P + 'iconscore/icon_score_base.py set_fee_sharing_proportion'), ('report', P + 'ipc/proxy.py')])

prop('C19', 'Named parameters reach a method as values of its declared types',
     'A request with named text parameters runs the method with each text converted to the declared type (integer, text, '
     'bytes, bool or address), and with the declared defaults for what is missing. Texts that do '
     'not denote a value of the type, unknown names and missing parameters are refused without running the method.',
     ['inputs', 'programs'], 'every text within the length bound, every declared type, every subset of names',
     'Parameters are attacker controlled text; tests try well formed ones.',
     [P + 'base/type_converter.py', P + 'base/type_converter_templates.py', P + 'service_engine.py',
      P + 'iconscore/typing/element.py', P + 'iconscore/icon_score_base.py'],
     [('conversion', P + 'iconscore/typing/element.py, base/type_converter.py'), ('dispatch', P + 'service_engine.py')])

prop('C20', 'Every question to the service gets its own answer',
     'Each read, call or balance question a contract asks is answered with the reply to that very question, whatever replies '
     'to earlier writes are still under way and however requests nest. A reply of another kind or a broken connection is '
     'reported as a failure, never taken for an answer.',
     ['schedules', 'fault_sequences', 'histories'], 'sequences of operations, every number of pending replies processed at '
     'each point, each wrong answer, a break at each question',
     'Tests answer immediately and correctly.',
     [P + 'ipc/proxy.py', P + 'ipc/client.py', P + 'database/db.py'],
     [('pairing', P + 'ipc/proxy.py send_and_receive, __handle_set_values'), ('transport', P + 'ipc/client.py')])

prop('C22', 'A method sees the call it was called by',
     'At any moment, sender, attached amount, transaction, block, owner and own address seen by contract code are those of the '
     'request it runs for. This also holds before, between and after nested requests to other contracts on the same executor, '
     'however these end, and for code that runs only when the result of a method is handled.',
     ['programs', 'histories', 'inputs'], 'requests nested up to the depth bound, everything about them symbolic, five kinds '
     'of endings',
     'A stale or leaked context shows only after nested or failing calls; tests make single calls.',
     [P + 'service_engine.py', P + 'iconscore/icon_score_context.py', P + 'iconscore/icon_score_base.py', P + 'pyexec.py'],
     [('context stack', P + 'service_engine.py'), ('container of contexts', P + 'iconscore/icon_score_context.py')])

prop('C21', 'An accepted package imports and names nothing forbidden, and none of it ran',
     'When packages are verified, a contract package is accepted only if every module in it, at any depth and however large, '
     'imports nothing but the contract interface and modules of the package, and uses none of the names exec, eval, compile '
     'and __import__. Modules that cannot be inspected are refused, and no code of a package runs before it is accepted.',
     ['programs', 'inputs'], 'forms of imports and uses of any name, at any place of a module, in any file of a package',
     'Contracts are attacker controlled programs; no test verifies a package.',
     [P + 'iconscore/score_package_validator.py', P + 'service_engine.py', P + 'iconscore/icon_score_loader.py'],
     [('validation', P + 'iconscore/score_package_validator.py'), ('order of validation and loading',
                                                                   P + 'service_engine.py get_score_api')],
     observe=['answer to the question for the interface', 'modules that are executed'])

prop('C23', 'Asking for an interface asks the service for nothing and changes nothing',
     'Whatever the code of a package does while its interface is asked for (on import, in its constructor, in its default '
     'values), the executor sends the service nothing but log lines and exactly one answer. A request that waits for its call '
     'meanwhile keeps its sender, steps, fee sharing and state as its own, and none of it is visible to that package.',
     ['programs', 'histories', 'inputs'], 'every operation of the contract API, alone or within a waiting request with '
     'everything about it symbolic',
     'The service stops the node on any other message at that time; tests ask well behaved packages, and not within calls.',
     [P + 'pyexec.py', P + 'ipc/proxy.py', P + 'service_engine.py', P + 'iconscore/internal_call.py', P + 'database/factory.py'],
     [('refusal of requests', P + 'ipc/proxy.py'), ('context', P + 'pyexec.py api_handler'), ('database without permission',
                                                                                   P + 'database/factory.py')])

H = 'havah/hvh/'
S = 'havah/hvh/hvhstate/'


def goprop(*a, **kw):
    prop(*a, go=True, observe=kw.pop('observe', ['world state after the operation', 'events and errors of the operation']), **kw)


goprop('C24', 'New coins appear only by the issue schedule, once a term',
       'The base transaction of a block creates coins only in the first block of a term, exactly the amount of the term '
       '(the configured amount, reduced by 30% after each reduction cycle) and within the limit of terms; no other block '
       'creates any. A base transaction that declares another amount, another form or no data is refused, and the one a '
       'node proposes for a block is always accepted.',
       ['inputs', 'histories'], 'every height, start of the issue, amount, limit of terms and state of the funds; several '
       'lengths of terms and cycles; every declared amount',
       'The amount depends on the height through terms and cycles; tests run a few heights.',
       [H + 'base.go', H + 'extension.go', S + 'state.go', 'havah/platform.go'],
       [('issue', H + 'base.go OnBaseTx, extension.go NewBaseTransactionData'), ('schedule', S + 'state.go GetIssueAmountByTS'),
        ('validation', 'havah/platform.go OnValidateTransactions')])

goprop('C25', 'The public treasury can always pay every reward it has promised',
       'If the public treasury covers the rewards that planets have been offered and not claimed, the rest of the '
       'current term and the lost rewards, then it still does after any base transaction, report of work, claim, '
       'registration, removal or withdrawal of lost rewards. So no claim of an owner ever fails for want of coins.',
       ['histories', 'inputs'], 'one operation from every state of the economy that satisfies the sum, with up to two '
       'planets and every amount',
       'It is an invariant over all histories; tests check a few sums after a few steps.',
       [H + 'base.go', H + 'extension.go', S + 'state.go'],
       [('offers', S + 'state.go OfferReward'), ('claims', H + 'extension.go ClaimPlanetReward'), ('terms', H + 'base.go')])

goprop('C26', 'A planet is offered its share once a term, not in the term it registered',
       'A report of work for a planet succeeds at most once in a term and not in the term of its registration. It offers '
       'the amount of the term divided by the number of active planets, and what the hoover fund adds up to the guaranteed '
       'value of a day and the price of the planet. A company planet gives 60% of the offer to the ecosystem.',
       ['inputs', 'histories'], 'every amount, price, height and reward record; each kind of planet; up to three active planets',
       'The share depends on amounts, price, kinds and history together; tests use round numbers.',
       [H + 'extension.go', S + 'state.go', S + 'planetreward.go'],
       [('report', H + 'extension.go ReportPlanetWork'), ('offer', S + 'state.go OfferReward'), ('hoover', H + 'extension.go')])

goprop('C27', 'The owner of a planet is paid what is unlocked, once, and nobody else is',
       'A claim pays the owner of a planet exactly the part of its rewards that is not locked, from the public treasury, '
       'and a second claim at the same height pays nothing. Claims of others and for unknown planets pay nothing and change nothing; '
       'planets of private sale unlock by the configured schedule.',
       ['inputs', 'histories'], 'every reward record, height and schedule bounds of private unlocking; several claimable rates',
       'Locking is arithmetic over heights and rates; tests sample the schedule.',
       [H + 'extension.go', S + 'state.go', S + 'planetreward.go'],
       [('claim', H + 'extension.go ClaimPlanetReward'), ('lock', S + 'state.go calcClaimableReward')])

goprop('C28', 'The end of a term moves each fund by its rule and loses no coin',
       'At the start of a term the rewards that no planet earned go to the sustainable fund, collected fees are split 20 to 80 '
       'between the ecosystem and the sustainable fund, and the hoover fund is filled up to its budget from the sustainable '
       'fund. The public treasury gets the amount of the new term, whose number of planets, price and amount are '
       'recorded; the sum of all balances grows by the issued amount alone.',
       ['inputs', 'histories'], 'every amount in every fund, every height, counts of planets up to three',
       'Rules interact through limits and missing funds; tests use one configuration.',
       [H + 'base.go', S + 'state.go'],
       [('term', H + 'base.go onTermEnd, onTermStart'), ('funds', H + 'base.go distributeFees, refillHooverFund')])

goprop('C29', 'Transfers keep the sum of balances, issue and burn change the supply alike',
       'A transfer moves exactly its amount between two accounts or is refused, also when both are the same; an issue or '
       'a burn changes a balance and the total supply by the same amount. No balance and no supply gets negative, refused operations '
       'change nothing, and queries change nothing that others see.',
       ['inputs'], 'every amount and balance, at two revisions',
       'Overdrafts and self-transfers depend on the amounts.',
       [H + 'context.go', H + 'accountstateproxy.go'],
       [('money', 'havah/hvh/context.go Transfer, Issue, Burn'), ('queries', H + 'accountstateproxy.go')])

goprop('C31', 'A validator is registered once, by the governance, and its node is its own',
       'Only the governance registers a validator, and no owner and no node ever registers twice, not even after removal. '
       'A removed validator leaves the active ones at once and is never enabled again; a new key takes over the place of the '
       'old node, and no node that belongs to another or is active for another is taken.',
       ['inputs', 'histories'], 'registries of up to four validators of each grade, every operation and caller on them',
       'It depends on who else is registered and active.',
       [H + 'extension.go', S + 'state.go', S + 'validatorinfo.go'],
       [('registry', S + 'state.go RegisterValidator, UnregisterValidator, SetNodePublicKey'), ('active places', H + 'extension.go')])

goprop('C32', 'Sub validators that miss too many votes lose their place, alike on every node',
       'When it is time to check, each active validator\'s missed votes are counted, a vote clears them, and a sub validator beyond the allowance is '
       'disabled; its place goes to the next usable validator of the rotation, or is removed. The result never '
       'depends on the order in which a node walks its maps, the base transaction never fails, and a disabled validator is '
       'enabled by its owner three times at most.',
       ['inputs', 'histories', 'schedules'], 'every combination of votes, counts and allowance for up to three active and '
       'four sub validators; every order of map iteration; missing keys and strangers among the voters',
       'Two penalties in one block, missing keys and map order do not occur in the tests.',
       [H + 'decentralization.go', S + 'state.go', S + 'validatorstatus.go', H + 'extension.go'],
       [('votes', H + 'decentralization.go handleBlockVote'), ('rotation', S + 'state.go GetNextActiveValidatorsAndChangeIndex')])

goprop('C33', 'Each term starts with the main validators and the next of the rotation',
       'The network decentralizes at the first term with enough registered validators, and from then on each term starts with the usable main '
       'validators and then usable sub validators in rotation order, as many as configured. The parameters of the term are '
       'those the governance set before it, and the base transaction of the term never fails, whoever was active before.',
       ['inputs', 'histories'], 'registries of up to four validators, every rotation index, disabled ones, missing keys, unregistered '
       'active ones, several counts and revisions',
       'Selection depends on the registry, the index, states and keys together.',
       [H + 'decentralization.go', S + 'state.go', S + 'networkstatus.go'],
       [('selection', H + 'decentralization.go initActiveValidatorSet'), ('rotation', S + 'state.go GetMainValidators, '
                                                                        'GetNextActiveValidatorsAndChangeIndex')])

goprop('C30', 'The registry of planets and of their managers stays exact',
       'Only the contract of planets registers, unregisters and transfers planets; an id is in use once, at most 50000 planets exist, the '
       'number of planets is that of the registered ones, and unregistering one moves its unclaimed reward to the lost '
       'coins and forgets it. Managers are a set which only the governance changes, and only managers report work. A refused '
       'call leaves all of the state as it was.',
       ['inputs', 'histories'], 'every record, price, height, count of planets and reward; registries of three ids, up to three managers, any caller and call',
       'It needs particular leftovers of former planets, counts at the limit and positions in lists.',
       [H + 'extension.go', S + 'state.go', 'havah/chainscore_havah.go'],
       [('planets', S + 'state.go RegisterPlanet, UnregisterPlanet, SetPlanetOwner'), ('managers', S + 'state.go AddPlanetManager'),
        ('permission', 'havah/chainscore_havah.go checkNFT')])

goprop('C35', 'Only the governance configures the network, and it reads back what was set',
       'Every call of the system contract that governs the network is refused for any caller but the governance and then leaves all of '
       'the state as it was; a contract is given away only by its owner while it is active, and methods that only tell change nothing. '
       'Prices, limits, costs of steps and deployers read back exactly as set, the revision never goes back nor beyond '
       'the known ones, and one validator always stays.',
       ['inputs', 'configurations'], 'every method, several revisions, seven kinds of other callers, every value; lists of up to three entries',
       'One method without its check, or one call that leaves something behind, goes unnoticed by tests of the others.',
       ['havah/chainscore.go', 'havah/chainscore_basic.go', 'havah/chainscore_havah.go', 'havah/chainscore_btp.go', H + 'context.go'],
       [('permission', 'havah/chainscore.go checkGovernance'), ('configuration', 'havah/chainscore_basic.go')])

goprop('C36', 'A transfer costs the steps it takes at the price and moves nothing else',
       'Whatever the balances, the value, the step limit, the price and the costs, a transfer succeeds exactly when the sender can pay '
       'for the limit and the value, the limit covers the steps and the sender is not blocked; then the value moves. '
       'In every case the receipt tells steps between the minimum and the limit, the sender pays exactly steps times price, '
       'never more than it has, and nothing else in the state changes.',
       ['inputs'], 'every balance and value up to 100 bits, limits and prices up to 64 bits, costs; to oneself, to another, with data',
       'Overdrafts and free failures sit where value, limit and price meet at a boundary that a handful of transactions do not hit.',
       ['service/transaction/transactionhandler.go', 'service/contract/transferhandler.go', 'service/contract/callcontext.go'],
       [('charge', 'service/transaction/transactionhandler.go Execute')])

goprop('C37', 'A failed call leaves nothing, a query changes nothing, and steps stay in limits',
       'When contracts call contracts, whatever a failed call and the calls below it wrote, transferred or emitted is gone and all that '
       'succeeded stays, in order; in a query, and in everything it calls, nothing can be written, emitted or transferred. '
       'Each call gets at most the steps its caller gives it and the caller is told what was used; the executor is told '
       'the right code, state and result for each of them.',
       ['inputs', 'programs', 'fault_sequences'],
       'fourteen shapes of up to four nested calls, with coins, re-entry, queries and fallbacks; every value, limit, use of steps and outcome',
       'A roll-back has to be right for every combination of failures, limits and coins at each of the levels.',
       ['service/contract/callcontext.go', 'service/contract/callframe.go', 'service/contract/callhandler.go', 'service/contract/transferhandler.go'],
       [('frames', 'service/contract/callcontext.go'), ('calls', 'service/contract/callhandler.go ExecuteAsync')])

goprop('C38', 'Deposits are used up for what they pay for and the rest comes back',
       'Whatever a contract has deposited is, to the last unit, either spent on steps it paid for, given back to its owner or a penalty; '
       'a deposit never pays more steps than asked for, never after its term, and no more free steps than were issued for it. '
       'With fee sharing, the payments of a transaction add up to its steps, each contract pays no more than the portion it '
       'has set, and all coins and fees together stay what they were, also when the sender cannot pay the rest.',
       ['inputs', 'histories', 'programs'], 'up to three deposits of both kinds, three payments, every amount and height; transactions with up to two sharing contracts',
       'Rounding, expiry and roll-back meet where deposits run out in the middle of a payment.',
       ['service/state/deposit.go', 'service/state/depositlist.go', 'service/contract/feepayerinfo.go', 'service/contract/deposithandler.go', 'service/transaction/transactionhandler.go'],
       [('deposits', 'service/state/depositlist.go PaySteps'), ('sharing', 'service/contract/feepayerinfo.go')])

goprop('C39', 'No transaction gets into two blocks',
       'Whatever the time stamps of transactions and blocks, the threshold, the order in which blocks become final and the points at '
       'which a node starts again, a block is accepted exactly when each of its transactions is in the range of time stamps and in '
       'none of the blocks before it, nor twice in its list. A transaction of a final block is found at its height and place, also after a start.',
       ['inputs', 'histories', 'crash_points'],
       'up to three blocks (four in thorough) of both groups with one or two transactions, every time stamp and threshold, starts between blocks',
       'A transaction slips through only at exact limits of time stamps, in particular states of the cache.',
       ['common/txlocator/manager.go', 'service/txidmanager.go', 'service/tschecker.go'],
       [('records', 'common/txlocator/manager.go tracker, manager'), ('range', 'service/tschecker.go CheckTxTimestamp')])

goprop('C40', 'The pool offers what can get into a block, in order and within its limits',
       'The candidates for a block are exactly the transactions of the pool that are valid, in the range of time stamps and in no block '
       'yet, those of a sender by their time stamps and the others as they came, as many as count and bytes allow. What can '
       'never become valid is dropped and whoever waits for it is told; all else stays. A dropped transaction, and only such a one, is refused for as long as it is in time.',
       ['inputs', 'histories'], 'up to four transactions of two senders (five in thorough), every time stamp and verdict, removals and limits',
       'The order and what stays depend on the whole history of the pool.',
       ['service/transactionpool.go', 'service/transactionlist.go', 'service/txidcache.go', 'service/tschecker.go'],
       [('candidates', 'service/transactionpool.go Candidate'), ('order', 'service/transactionlist.go Add, Remove'),
        ('dropped', 'service/txidcache.go')])
