// generated by tool/mklax.py
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
#include <stdexcept>
#include <condition_variable>
#include <deque>
#include <list>
#include <queue>
#include <bitset>
#include <fstream>
#include <variant>
#include <future>
#include <filesystem>
#include <random>
#include <regex>
#include <chrono>
#include <span>
namespace lax {
struct Any;
template <class T>
concept IsAny = std::is_base_of_v<Any, std::remove_cvref_t<T>>;
struct Any {
  template <class... A> Any(A&&...);
  Any();
  Any(const Any&);
  Any(Any&&);
  Any& operator=(const Any&);
  Any(std::initializer_list<int>);
  Any(std::initializer_list<std::size_t>);
  Any(std::initializer_list<double>);
  template <class T>
    requires(!IsAny<T> && !std::is_same_v<T, std::allocator<char>> &&
             !std::is_same_v<T, std::nullptr_t> &&
             !std::is_same_v<T, std::initializer_list<char>>)
  operator T() const;
  template <class T> Any& operator=(T&&);
  template <class... A> Any& operator()(A&&...) const;
  template <class A> Any& operator[](A&&) const;
  Any& operator*() const;
  Any* operator->() const;
  Any& operator++();
  Any operator++(int);
  Any& operator--();
  Any operator--(int);
  Any operator-() const;
  Any operator+() const;
  Any operator~() const;
  bool operator!() const;
  template <class T> Any& operator+=(T&&);
  template <class T> Any& operator-=(T&&);
  template <class T> Any& operator*=(T&&);
  template <class T> Any& operator/=(T&&);
  template <class T> Any& operator|=(T&&);
  template <class T> Any& operator&=(T&&);
  template <class T> Any& operator^=(T&&);
  template <class... A> static Any& AddAntennas(A&&...);
  template <class... A> static Any& AddAntennas(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& AddChild(A&&...);
  template <class... A> static Any& AddChild(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& AddExtraDimension(A&&...);
  template <class... A> static Any& AddExtraDimension(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& AddSources(A&&...);
  template <class... A> static Any& AddSources(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& AddToMulti(A&&...);
  template <class... A> static Any& AddToMulti(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& AipsIndexToEnum(A&&...);
  template <class... A> static Any& AipsIndexToEnum(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& AngularDistance(A&&...);
  template <class... A> static Any& AngularDistance(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& AssignTo(A&&...);
  template <class... A> static Any& AssignTo(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Buffer(A&&...);
  template <class... A> static Any& Buffer(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Clear(A&&...);
  template <class... A> static Any& Clear(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& CollectStatistics(A&&...);
  template <class... A> static Any& CollectStatistics(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Conjugate(A&&...);
  template <class... A> static Any& Conjugate(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& ConstrainedRun(A&&...);
  template <class... A> static Any& ConstrainedRun(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& CopyToFacet(A&&...);
  template <class... A> static Any& CopyToFacet(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& CreateSolTab(A&&...);
  template <class... A> static Any& CreateSolTab(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Data(A&&...);
  template <class... A> static Any& Data(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Dec(A&&...);
  template <class... A> static Any& Dec(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& DirectionLabel(A&&...);
  template <class... A> static Any& DirectionLabel(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Empty(A&&...);
  template <class... A> static Any& Empty(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Filename(A&&...);
  template <class... A> static Any& Filename(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& FindStrategyFile(A&&...);
  template <class... A> static Any& FindStrategyFile(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& FinishMulti(A&&...);
  template <class... A> static Any& FinishMulti(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& FinishParallelExecution(A&&...);
  template <class... A> static Any& FinishParallelExecution(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Flush(A&&...);
  template <class... A> static Any& Flush(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Format(A&&...);
  template <class... A> static Any& Format(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Frequency(A&&...);
  template <class... A> static Any& Frequency(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GainTypeToHumanReadableString(A&&...);
  template <class... A> static Any& GainTypeToHumanReadableString(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Get(A&&...);
  template <class... A> static Any& Get(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetAxis(A&&...);
  template <class... A> static Any& GetAxis(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetAxisIndex(A&&...);
  template <class... A> static Any& GetAxisIndex(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetDirIndex(A&&...);
  template <class... A> static Any& GetDirIndex(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetInstance(A&&...);
  template <class... A> static Any& GetInstance(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetNearestSource(A&&...);
  template <class... A> static Any& GetNearestSource(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetNrStations(A&&...);
  template <class... A> static Any& GetNrStations(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetParms(A&&...);
  template <class... A> static Any& GetParms(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetPixels(A&&...);
  template <class... A> static Any& GetPixels(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetPointResponse(A&&...);
  template <class... A> static Any& GetPointResponse(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetSolSetName(A&&...);
  template <class... A> static Any& GetSolSetName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetSolTab(A&&...);
  template <class... A> static Any& GetSolTab(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetStringAxis(A&&...);
  template <class... A> static Any& GetStringAxis(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& GetType(A&&...);
  template <class... A> static Any& GetType(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& H5ParmTypeStringToGainType(A&&...);
  template <class... A> static Any& H5ParmTypeStringToGainType(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& HasAxis(A&&...);
  template <class... A> static Any& HasAxis(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Height(A&&...);
  template <class... A> static Any& Height(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& HermTranspose(A&&...);
  template <class... A> static Any& HermTranspose(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& HorizontalStride(A&&...);
  template <class... A> static Any& HorizontalStride(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& ImageBuffer(A&&...);
  template <class... A> static Any& ImageBuffer(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& ImageHeight(A&&...);
  template <class... A> static Any& ImageHeight(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& ImageWidth(A&&...);
  template <class... A> static Any& ImageWidth(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Invert(A&&...);
  template <class... A> static Any& Invert(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& IsFinite(A&&...);
  template <class... A> static Any& IsFinite(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& IsHomogeneous(A&&...);
  template <class... A> static Any& IsHomogeneous(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& LoadStrategyFile(A&&...);
  template <class... A> static Any& LoadStrategyFile(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& MJDToHMS(A&&...);
  template <class... A> static Any& MJDToHMS(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& MakeFlagMask(A&&...);
  template <class... A> static Any& MakeFlagMask(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& MakeImageSet(A&&...);
  template <class... A> static Any& MakeImageSet(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& MakeQualityStatistics(A&&...);
  template <class... A> static Any& MakeQualityStatistics(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& MeanPosition(A&&...);
  template <class... A> static Any& MeanPosition(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& MissingAntennaBehaviorToString(A&&...);
  template <class... A> static Any& MissingAntennaBehaviorToString(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& ModifiedJulianDateToYMD(A&&...);
  template <class... A> static Any& ModifiedJulianDateToYMD(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Multiply(A&&...);
  template <class... A> static Any& Multiply(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& MultiplyHerm(A&&...);
  template <class... A> static Any& MultiplyHerm(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& NORMAL(A&&...);
  template <class... A> static Any& NORMAL(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& NThreads(A&&...);
  template <class... A> static Any& NThreads(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& NestedRun(A&&...);
  template <class... A> static Any& NestedRun(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Observatory(A&&...);
  template <class... A> static Any& Observatory(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& OffsetX(A&&...);
  template <class... A> static Any& OffsetX(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& OffsetY(A&&...);
  template <class... A> static Any& OffsetY(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& ParseList(A&&...);
  template <class... A> static Any& ParseList(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& PhaseCentreDec(A&&...);
  template <class... A> static Any& PhaseCentreDec(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& PhaseCentreRA(A&&...);
  template <class... A> static Any& PhaseCentreRA(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& PixelSizeX(A&&...);
  template <class... A> static Any& PixelSizeX(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& PixelSizeY(A&&...);
  template <class... A> static Any& PixelSizeY(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& PopFront(A&&...);
  template <class... A> static Any& PopFront(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& PushBack(A&&...);
  template <class... A> static Any& PushBack(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& RA(A&&...);
  template <class... A> static Any& RA(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Read(A&&...);
  template <class... A> static Any& Read(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Response(A&&...);
  template <class... A> static Any& Response(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Run(A&&...);
  template <class... A> static Any& Run(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetAntennaList(A&&...);
  template <class... A> static Any& SetAntennaList(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetAntennas(A&&...);
  template <class... A> static Any& SetAntennas(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetBand(A&&...);
  template <class... A> static Any& SetBand(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetBandList(A&&...);
  template <class... A> static Any& SetBandList(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetComplexValues(A&&...);
  template <class... A> static Any& SetComplexValues(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetDate(A&&...);
  template <class... A> static Any& SetDate(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetFacet(A&&...);
  template <class... A> static Any& SetFacet(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetFreqs(A&&...);
  template <class... A> static Any& SetFreqs(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetFrequency(A&&...);
  template <class... A> static Any& SetFrequency(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetImageDimensions(A&&...);
  template <class... A> static Any& SetImageDimensions(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetInterval(A&&...);
  template <class... A> static Any& SetInterval(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetIntervalList(A&&...);
  template <class... A> static Any& SetIntervalList(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetNThreads(A&&...);
  template <class... A> static Any& SetNThreads(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetOrigin(A&&...);
  template <class... A> static Any& SetOrigin(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetPhaseCentreShift(A&&...);
  template <class... A> static Any& SetPhaseCentreShift(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetPolarizations(A&&...);
  template <class... A> static Any& SetPolarizations(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetSources(A&&...);
  template <class... A> static Any& SetSources(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetTime(A&&...);
  template <class... A> static Any& SetTime(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetTimes(A&&...);
  template <class... A> static Any& SetTimes(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& SetValues(A&&...);
  template <class... A> static Any& SetValues(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Size(A&&...);
  template <class... A> static Any& Size(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& StartMulti(A&&...);
  template <class... A> static Any& StartMulti(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& StartParallelExecution(A&&...);
  template <class... A> static Any& StartParallelExecution(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& StringToMissingAntennaBehavior(A&&...);
  template <class... A> static Any& StringToMissingAntennaBehavior(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& TypeToFullString(A&&...);
  template <class... A> static Any& TypeToFullString(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Untrim(A&&...);
  template <class... A> static Any& Untrim(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& UpdateMetaHeaders(A&&...);
  template <class... A> static Any& UpdateMetaHeaders(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& UpdatePartHeaders(A&&...);
  template <class... A> static Any& UpdatePartHeaders(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Width(A&&...);
  template <class... A> static Any& Width(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& Write(A&&...);
  template <class... A> static Any& Write(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& WriteDataRow(A&&...);
  template <class... A> static Any& WriteDataRow(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& WriteMetaRow(A&&...);
  template <class... A> static Any& WriteMetaRow(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& WriteStatistics(A&&...);
  template <class... A> static Any& WriteStatistics(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& absoluteName(A&&...);
  template <class... A> static Any& absoluteName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& accessKey(A&&...);
  template <class... A> static Any& accessKey(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& addColumn(A&&...);
  template <class... A> static Any& addColumn(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& addColumnToDesc(A&&...);
  template <class... A> static Any& addColumnToDesc(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& addRow(A&&...);
  template <class... A> static Any& addRow(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& adjustHypercolumns(A&&...);
  template <class... A> static Any& adjustHypercolumns(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& adjustStMan(A&&...);
  template <class... A> static Any& adjustStMan(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& antenna(A&&...);
  template <class... A> static Any& antenna(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& append(A&&...);
  template <class... A> static Any& append(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& array(A&&...);
  template <class... A> static Any& array(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asArrayDouble(A&&...);
  template <class... A> static Any& asArrayDouble(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asArrayInt(A&&...);
  template <class... A> static Any& asArrayInt(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asArrayString(A&&...);
  template <class... A> static Any& asArrayString(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asBool(A&&...);
  template <class... A> static Any& asBool(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asDouble(A&&...);
  template <class... A> static Any& asDouble(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asInt(A&&...);
  template <class... A> static Any& asInt(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asMDirection(A&&...);
  template <class... A> static Any& asMDirection(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asMPosition(A&&...);
  template <class... A> static Any& asMPosition(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asRecord(A&&...);
  template <class... A> static Any& asRecord(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asString(A&&...);
  template <class... A> static Any& asString(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asTable(A&&...);
  template <class... A> static Any& asTable(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& assign(A&&...);
  template <class... A> static Any& assign(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& asuInt(A&&...);
  template <class... A> static Any& asuInt(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& attach(A&&...);
  template <class... A> static Any& attach(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& attr(A&&...);
  template <class... A> static Any& attr(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& baseName(A&&...);
  template <class... A> static Any& baseName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& begin(A&&...);
  template <class... A> static Any& begin(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& bindAll(A&&...);
  template <class... A> static Any& bindAll(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& bindColumn(A&&...);
  template <class... A> static Any& bindColumn(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& bindCreate(A&&...);
  template <class... A> static Any& bindCreate(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& capacity(A&&...);
  template <class... A> static Any& capacity(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& cast(A&&...);
  template <class... A> static Any& cast(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& chanFreq(A&&...);
  template <class... A> static Any& chanFreq(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& chanWidth(A&&...);
  template <class... A> static Any& chanWidth(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& clear(A&&...);
  template <class... A> static Any& clear(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& close(A&&...);
  template <class... A> static Any& close(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& col(A&&...);
  template <class... A> static Any& col(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& columnDesc(A&&...);
  template <class... A> static Any& columnDesc(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& columnName(A&&...);
  template <class... A> static Any& columnName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& comment(A&&...);
  template <class... A> static Any& comment(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& convert(A&&...);
  template <class... A> static Any& convert(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& copy(A&&...);
  template <class... A> static Any& copy(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& copyInfo(A&&...);
  template <class... A> static Any& copyInfo(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& copySubTables(A&&...);
  template <class... A> static Any& copySubTables(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& corrType(A&&...);
  template <class... A> static Any& corrType(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& create(A&&...);
  template <class... A> static Any& create(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& createDataSet(A&&...);
  template <class... A> static Any& createDataSet(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& createDefaultSubtables(A&&...);
  template <class... A> static Any& createDefaultSubtables(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& data(A&&...);
  template <class... A> static Any& data(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& dataDescription(A&&...);
  template <class... A> static Any& dataDescription(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& dataManagerInfo(A&&...);
  template <class... A> static Any& dataManagerInfo(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& dataType(A&&...);
  template <class... A> static Any& dataType(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& day(A&&...);
  template <class... A> static Any& day(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& deepCopy(A&&...);
  template <class... A> static Any& deepCopy(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& def(A&&...);
  template <class... A> static Any& def(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& def_property_readonly(A&&...);
  template <class... A> static Any& def_property_readonly(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& def_property_readonly_static(A&&...);
  template <class... A> static Any& def_property_readonly_static(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& def_submodule(A&&...);
  template <class... A> static Any& def_submodule(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& define(A&&...);
  template <class... A> static Any& define(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& defineRecord(A&&...);
  template <class... A> static Any& defineRecord(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& defineTable(A&&...);
  template <class... A> static Any& defineTable(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& diagonal(A&&...);
  template <class... A> static Any& diagonal(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& dirName(A&&...);
  template <class... A> static Any& dirName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& empty(A&&...);
  template <class... A> static Any& empty(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& exists(A&&...);
  template <class... A> static Any& exists(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& expandedName(A&&...);
  template <class... A> static Any& expandedName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& exposure(A&&...);
  template <class... A> static Any& exposure(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& feed(A&&...);
  template <class... A> static Any& feed(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& field(A&&...);
  template <class... A> static Any& field(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& fill(A&&...);
  template <class... A> static Any& fill(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& fillColumn(A&&...);
  template <class... A> static Any& fillColumn(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& flush(A&&...);
  template <class... A> static Any& flush(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& fromPattern(A&&...);
  template <class... A> static Any& fromPattern(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& fromRecord(A&&...);
  template <class... A> static Any& fromRecord(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& from_shape(A&&...);
  template <class... A> static Any& from_shape(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& get(A&&...);
  template <class... A> static Any& get(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getAngle(A&&...);
  template <class... A> static Any& getAngle(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getBaseValue(A&&...);
  template <class... A> static Any& getBaseValue(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getBool(A&&...);
  template <class... A> static Any& getBool(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getColumn(A&&...);
  template <class... A> static Any& getColumn(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getColumnCells(A&&...);
  template <class... A> static Any& getColumnCells(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getCtor(A&&...);
  template <class... A> static Any& getCtor(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getDetailMsg(A&&...);
  template <class... A> static Any& getDetailMsg(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getDouble(A&&...);
  template <class... A> static Any& getDouble(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getInt(A&&...);
  template <class... A> static Any& getInt(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getPartNames(A&&...);
  template <class... A> static Any& getPartNames(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getRefPtr(A&&...);
  template <class... A> static Any& getRefPtr(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getRefString(A&&...);
  template <class... A> static Any& getRefString(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getRowNumbers(A&&...);
  template <class... A> static Any& getRowNumbers(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getStorage(A&&...);
  template <class... A> static Any& getStorage(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getString(A&&...);
  template <class... A> static Any& getString(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getType(A&&...);
  template <class... A> static Any& getType(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getValue(A&&...);
  template <class... A> static Any& getValue(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& getVector(A&&...);
  template <class... A> static Any& getVector(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& gsub(A&&...);
  template <class... A> static Any& gsub(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& hasContent(A&&...);
  template <class... A> static Any& hasContent(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& history(A&&...);
  template <class... A> static Any& history(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& hostName(A&&...);
  template <class... A> static Any& hostName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& imag(A&&...);
  template <class... A> static Any& imag(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& import(A&&...);
  template <class... A> static Any& import(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& in(A&&...);
  template <class... A> static Any& in(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& index(A&&...);
  template <class... A> static Any& index(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& insert(A&&...);
  template <class... A> static Any& insert(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& insertMember(A&&...);
  template <class... A> static Any& insertMember(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& isArray(A&&...);
  template <class... A> static Any& isArray(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& isColumn(A&&...);
  template <class... A> static Any& isColumn(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& isDefined(A&&...);
  template <class... A> static Any& isDefined(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& isEqual(A&&...);
  template <class... A> static Any& isEqual(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& isNull(A&&...);
  template <class... A> static Any& isNull(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& isReadable(A&&...);
  template <class... A> static Any& isReadable(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& isReady(A&&...);
  template <class... A> static Any& isReady(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& keywordName(A&&...);
  template <class... A> static Any& keywordName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& keywordSet(A&&...);
  template <class... A> static Any& keywordSet(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& listAntenna(A&&...);
  template <class... A> static Any& listAntenna(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& listField(A&&...);
  template <class... A> static Any& listField(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& listMain(A&&...);
  template <class... A> static Any& listMain(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& listSpectralAndPolInfo(A&&...);
  template <class... A> static Any& listSpectralAndPolInfo(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& listTitle(A&&...);
  template <class... A> static Any& listTitle(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& listWhere(A&&...);
  template <class... A> static Any& listWhere(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& lock(A&&...);
  template <class... A> static Any& lock(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& makeMDirection(A&&...);
  template <class... A> static Any& makeMDirection(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& makeNorm(A&&...);
  template <class... A> static Any& makeNorm(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& match(A&&...);
  template <class... A> static Any& match(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& memoryTotal(A&&...);
  template <class... A> static Any& memoryTotal(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& modifiedJulianDay(A&&...);
  template <class... A> static Any& modifiedJulianDay(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& move_write(A&&...);
  template <class... A> static Any& move_write(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& name(A&&...);
  template <class... A> static Any& name(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& ncolumn(A&&...);
  template <class... A> static Any& ncolumn(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& ndim(A&&...);
  template <class... A> static Any& ndim(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& nelements(A&&...);
  template <class... A> static Any& nelements(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& next(A&&...);
  template <class... A> static Any& next(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& nfields(A&&...);
  template <class... A> static Any& nfields(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& nrow(A&&...);
  template <class... A> static Any& nrow(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& observation(A&&...);
  template <class... A> static Any& observation(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& options(A&&...);
  template <class... A> static Any& options(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& parse(A&&...);
  template <class... A> static Any& parse(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& pastEnd(A&&...);
  template <class... A> static Any& pastEnd(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& polarization(A&&...);
  template <class... A> static Any& polarization(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& positionMeas(A&&...);
  template <class... A> static Any& positionMeas(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& print(A&&...);
  template <class... A> static Any& print(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& printErrorStack(A&&...);
  template <class... A> static Any& printErrorStack(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& project(A&&...);
  template <class... A> static Any& project(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& put(A&&...);
  template <class... A> static Any& put(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& putColumn(A&&...);
  template <class... A> static Any& putColumn(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& putSlice(A&&...);
  template <class... A> static Any& putSlice(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& putStorage(A&&...);
  template <class... A> static Any& putStorage(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& read(A&&...);
  template <class... A> static Any& read(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& readArguments(A&&...);
  template <class... A> static Any& readArguments(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& readmeAddLine(A&&...);
  template <class... A> static Any& readmeAddLine(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& real(A&&...);
  template <class... A> static Any& real(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& reference(A&&...);
  template <class... A> static Any& reference(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& referenceDirMeasCol(A&&...);
  template <class... A> static Any& referenceDirMeasCol(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& reform(A&&...);
  template <class... A> static Any& reform(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& removeColumn(A&&...);
  template <class... A> static Any& removeColumn(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& removeDminfoColumns(A&&...);
  template <class... A> static Any& removeDminfoColumns(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& removeField(A&&...);
  template <class... A> static Any& removeField(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& removeRow(A&&...);
  template <class... A> static Any& removeRow(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& reopenRW(A&&...);
  template <class... A> static Any& reopenRW(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& requiredTableDesc(A&&...);
  template <class... A> static Any& requiredTableDesc(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& reserve(A&&...);
  template <class... A> static Any& reserve(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& resetDirection(A&&...);
  template <class... A> static Any& resetDirection(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& resetEpoch(A&&...);
  template <class... A> static Any& resetEpoch(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& reshape(A&&...);
  template <class... A> static Any& reshape(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& resize(A&&...);
  template <class... A> static Any& resize(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& rowNumbers(A&&...);
  template <class... A> static Any& rowNumbers(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& rowVector(A&&...);
  template <class... A> static Any& rowVector(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& rwColumnDesc(A&&...);
  template <class... A> static Any& rwColumnDesc(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& rwKeywordSet(A&&...);
  template <class... A> static Any& rwKeywordSet(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& set(A&&...);
  template <class... A> static Any& set(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& setAntennaExpr(A&&...);
  template <class... A> static Any& setAntennaExpr(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& setDefault(A&&...);
  template <class... A> static Any& setDefault(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& setOptions(A&&...);
  template <class... A> static Any& setOptions(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& setShape(A&&...);
  template <class... A> static Any& setShape(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& setShapeColumn(A&&...);
  template <class... A> static Any& setShapeColumn(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& setTiledStMan(A&&...);
  template <class... A> static Any& setTiledStMan(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& setType(A&&...);
  template <class... A> static Any& setType(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& shape(A&&...);
  template <class... A> static Any& shape(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& show(A&&...);
  template <class... A> static Any& show(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& size(A&&...);
  template <class... A> static Any& size(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& solveLoop(A&&...);
  template <class... A> static Any& solveLoop(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& sort(A&&...);
  template <class... A> static Any& sort(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& sourceTableName(A&&...);
  template <class... A> static Any& sourceTableName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& spectralWindow(A&&...);
  template <class... A> static Any& spectralWindow(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& steps(A&&...);
  template <class... A> static Any& steps(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& storage(A&&...);
  template <class... A> static Any& storage(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& strides(A&&...);
  template <class... A> static Any& strides(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& subRecord(A&&...);
  template <class... A> static Any& subRecord(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& table(A&&...);
  template <class... A> static Any& table(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& tableDesc(A&&...);
  template <class... A> static Any& tableDesc(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& tableInfo(A&&...);
  template <class... A> static Any& tableInfo(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& tableName(A&&...);
  template <class... A> static Any& tableName(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& time(A&&...);
  template <class... A> static Any& time(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& toArrayBool(A&&...);
  template <class... A> static Any& toArrayBool(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& toArrayDouble(A&&...);
  template <class... A> static Any& toArrayDouble(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& toRecord(A&&...);
  template <class... A> static Any& toRecord(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& toString(A&&...);
  template <class... A> static Any& toString(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& toTableExprNode(A&&...);
  template <class... A> static Any& toTableExprNode(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& tovector(A&&...);
  template <class... A> static Any& tovector(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& transpose(A&&...);
  template <class... A> static Any& transpose(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& type(A&&...);
  template <class... A> static Any& type(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& unlock(A&&...);
  template <class... A> static Any& unlock(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& value(A&&...);
  template <class... A> static Any& value(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& version(A&&...);
  template <class... A> static Any& version(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& write(A&&...);
  template <class... A> static Any& write(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& write_end(A&&...);
  template <class... A> static Any& write_end(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& x(A&&...);
  template <class... A> static Any& x(std::initializer_list<Any>, A&&...);
  template <class... A> static Any& y(A&&...);
  template <class... A> static Any& y(std::initializer_list<Any>, A&&...);
  using Axes = Any;
  using Convert = Any;
  using DEFAULT = Any;
  using IAU2000 = Any;
  using Ref = Any;
  using TableOption = Any;
  using Types = Any;
  using size_type = Any;
  static constexpr int ANGLE = 0;
  static constexpr int ANTENNA1 = 1;
  static constexpr int ANTENNA2 = 2;
  static constexpr int ANTENNA_ID = 3;
  static constexpr int APPLICATION = 4;
  static constexpr int APP_PARAMS = 5;
  static constexpr int AZEL = 6;
  static constexpr int AZELGEO = 7;
  static constexpr int Ascending = 8;
  static constexpr int AutoNoReadLocking = 9;
  static constexpr int BEAM_ID = 10;
  static constexpr int BEAM_OFFSET = 11;
  static constexpr int CALIBRATION_GROUP = 12;
  static constexpr int CHAN_FREQ = 13;
  static constexpr int CHAN_WIDTH = 14;
  static constexpr int CLI_COMMAND = 15;
  static constexpr int CODE = 16;
  static constexpr int CORR_PRODUCT = 17;
  static constexpr int CORR_TYPE = 18;
  static constexpr int DATA = 19;
  static constexpr int DATA_DESC_ID = 20;
  static constexpr int DELAY_DIR = 21;
  static constexpr int DERIVLEVEL = 22;
  static constexpr int DIRECTION = 23;
  static constexpr int DISH_DIAMETER = 24;
  static constexpr int DiagonalInstrumental = 25;
  static constexpr int DimensionType = 26;
  static constexpr int Direct = 27;
  static constexpr int EFFECTIVE_BW = 28;
  static constexpr int EXPOSURE = 29;
  static constexpr int FEED_ID = 30;
  static constexpr int FLAG = 31;
  static constexpr int FLAG_CATEGORY = 32;
  static constexpr int FLAG_ROW = 33;
  static constexpr int FixedShape = 34;
  static constexpr int ICRS = 35;
  static constexpr int IEEE_F64LE = 36;
  static constexpr int INTERVAL = 37;
  static constexpr int ITRF = 38;
  static constexpr int InitializationData = 39;
  static constexpr int Instrumental = 40;
  static constexpr int J2000 = 41;
  static constexpr int LAST = 42;
  static constexpr int MEAS_FREQ_REF = 43;
  static constexpr int MESSAGE = 44;
  static constexpr int MOUNT = 45;
  static constexpr int Memory = 46;
  static constexpr int NAME = 47;
  static constexpr int NUM_CHAN = 48;
  static constexpr int NUM_CORR = 49;
  static constexpr int NUM_LINES = 50;
  static constexpr int NUM_POLY = 51;
  static constexpr int NUM_RECEPTORS = 52;
  static constexpr int New = 53;
  static constexpr int NewNoReplace = 54;
  static constexpr int NoDuplicates = 55;
  static constexpr int NoSort = 56;
  static constexpr int OBSERVATION_ID = 57;
  static constexpr int OBSERVER = 58;
  static constexpr int ORIGIN = 59;
  static constexpr int Option = 60;
  static constexpr int PHASE_DIR = 61;
  static constexpr int POLARIZATION_ID = 62;
  static constexpr int POLARIZATION_TYPE = 63;
  static constexpr int POL_RESPONSE = 64;
  static constexpr int POSITION = 65;
  static constexpr int POST = 66;
  static constexpr int PRIORITY = 67;
  static constexpr int PROJECT = 68;
  static constexpr int PROPER_MOTION = 69;
  static constexpr int PredefinedColumns = 70;
  static constexpr int QuickSort = 71;
  static constexpr int RECEPTOR_ANGLE = 72;
  static constexpr int REFERENCE_DIR = 73;
  static constexpr int REF_FREQUENCY = 74;
  static constexpr int RELEASE_DATE = 75;
  static constexpr int RESOLUTION = 76;
  static constexpr int REST_FREQUENCY = 77;
  static constexpr int SCHEDULE_TYPE = 78;
  static constexpr int SIGMA = 79;
  static constexpr int SOLINCREMENT = 80;
  static constexpr int SOURCE = 81;
  static constexpr int SOURCE_ID = 82;
  static constexpr int SPECTRAL_WINDOW_ID = 83;
  static constexpr int STATION = 84;
  static constexpr int Scratch = 85;
  static constexpr int TELESCOPE_NAME = 86;
  static constexpr int TIME = 87;
  static constexpr int TIME_CENTROID = 88;
  static constexpr int TIME_RANGE = 89;
  static constexpr int TOPO = 90;
  static constexpr int TOTAL_BANDWIDTH = 91;
  static constexpr int TYPE = 92;
  static constexpr int UTC = 93;
  static constexpr int UVW = 94;
  static constexpr int Update = 95;
  static constexpr int UserLocking = 96;
  static constexpr int WEIGHT = 97;
  static constexpr int WEIGHT_SPECTRUM = 98;
  static constexpr int XX = 99;
  static constexpr int XY = 100;
  static constexpr int YMD = 101;
  static constexpr int YX = 102;
  static constexpr int YY = 103;
  static constexpr int axes = 104;
  static constexpr int c_style = 105;
  static constexpr int forcecast = 106;
  static constexpr int kDelay = 107;
  static constexpr int origin = 108;
  static constexpr int p = 109;
  static constexpr int q = 110;
  static constexpr int r = 111;
  static constexpr int shape_type = 112;
  static constexpr int thisMSAErrorHandler = 113;
};
#define LAX_OP(op, R)                                        \
  template <class A, class B>                                \
    requires(IsAny<A> || IsAny<B>)                           \
  R operator op(A&&, B&&);
LAX_OP(+, Any) LAX_OP(-, Any) LAX_OP(*, Any) LAX_OP(/, Any) LAX_OP(%, Any)
LAX_OP(|, Any) LAX_OP(&, Any) LAX_OP(^, Any)
LAX_OP(==, bool) LAX_OP(!=, bool) LAX_OP(<, bool) LAX_OP(>, bool)
LAX_OP(<=, bool) LAX_OP(>=, bool) LAX_OP(&&, bool) LAX_OP(||, bool)
template <class B> requires(IsAny<B>)
std::ostream& operator<<(std::ostream&, B&&);
template <class A, class B> requires(IsAny<A>) Any& operator<<(A&&, B&&);
template <class A, class B> requires(IsAny<A>) Any& operator>>(A&&, B&&);
template <class T>
struct Arr : Any {
  using Any::Any;
  static Any& resize(std::initializer_list<Any>);
  template <class... A> static Any& resize(A&&...);
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  using contiter = T*;
  using const_contiter = const T*;
  Arr();
  Arr(const Arr&);
  Arr(Arr&&);
  Arr& operator=(const Arr&);
  template <class U> Arr& operator=(U&&);
  template <class... A> T& operator()(A&&...);
  template <class... A> const T& operator()(A&&...) const;
  template <class A> T& operator[](A&&);
  template <class A> const T& operator[](A&&) const;
  T* data();
  const T* data() const;
  T* begin();
  const T* begin() const;
  T* end();
  const T* end() const;
  T* cbegin();
  const T* cbegin() const;
  T* cend();
  const T* cend() const;
  std::size_t size() const;
  bool empty() const;
  T& front();
  const T& front() const;
  T& back();
  const T& back() const;
};
}  // namespace lax
namespace casacore {
using Quantity = lax::Any;
using Bool = bool;
using Complex = std::complex<float>;
using DComplex = std::complex<double>;
using Double = double;
using Float = float;
using Int = int;
using uInt = unsigned int;
using Int64 = long;
using uInt64 = unsigned long;
using uChar = unsigned char;
using Char = char;
using Short = short;
using rownr_t = unsigned long;
enum CopyPolicy { COPY = 0, TAKE_OVER, SHARE };
using StorageInitPolicy = CopyPolicy;
enum DataType { TpOther, TpUInt };
namespace C {
constexpr double c = 299792458.0, pi = 3.14159265358979;
}
class String : public std::string {
 public:
  using std::string::string;
  String();
  String(const std::string&);
  String(const lax::Any&);
  template <class... A> static lax::Any toString(A&&...);
  template <class... A> String before(A&&...) const;
  template <class... A> String after(A&&...) const;
  template <class... A> String from(A&&...) const;
  template <class... A> bool contains(A&&...) const;
  template <class... A> bool matches(A&&...) const;
  template <class... A> String& upcase(A&&...);
  template <class... A> String& downcase(A&&...);
  template <class... A> String& prepend(A&&...);
  template <class... A> int freq(A&&...) const;
};
struct MSOptions_;
class IPosition : public lax::Any {
 public:
  using lax::Any::Any;
  IPosition();
  IPosition(const IPosition&);
  IPosition& operator=(const IPosition&);
  IPosition(std::initializer_list<long>);
  long& operator[](std::size_t);
  long operator[](std::size_t) const;
  long& operator()(std::size_t);
  long operator()(std::size_t) const;
  std::size_t size() const;
  std::size_t nelements() const;
  long product() const;
};
}  // namespace casacore
namespace aocommon {
using NumT = float;
struct LogStream {
  template <class T> LogStream& operator<<(T&&);
  LogStream& operator<<(std::ostream& (*)(std::ostream&));
  template <class... A> void Log(A&&...);
  operator std::ostream&();
};
struct LogVerbosityLevel : lax::Any {};
struct Logger {
  static LogStream Debug, Error, Fatal, Info, Warn, Progress;
  template <class... A> static void SetLogMemory(A&&...);
  template <class... A> static void SetLogTime(A&&...);
  template <class... A> static void SetVerbosity(A&&...);
};
constexpr double kSpeedOfLight = 299792458.0;
enum class PolarizationEnum { kI, kXX, kXY, kYX, kYY };
template <class T>
struct Mat : lax::Any {
  using lax::Any::Any;
  Mat(const lax::Any&);
  Mat();
  Mat HermTranspose() const;
  Mat Transpose() const;
  Mat Inverse() const;
  bool Invert();
  Mat(const Mat&);
  Mat& operator=(const Mat&);
  template <class I> std::complex<T>& operator[](I);
  template <class I> const std::complex<T>& operator[](I) const;
  static Mat Unity();
  static Mat Zero();
  static Mat NaN();
};
using MC2x2 = Mat<double>;
using MC2x2F = Mat<float>;
template <class T> struct MatD : lax::Any {
  using lax::Any::Any;
  MatD(const lax::Any&);
  MatD();
  MatD HermTranspose() const;
  MatD Diagonal() const;
  MatD(const MatD&);
  MatD& operator=(const MatD&);
  template <class I> std::complex<T>& operator[](I);
  template <class I> const std::complex<T>& operator[](I) const;
  static MatD Unity();
  static MatD Zero();
};
using MC2x2Diag = MatD<double>;
using MC2x2FDiag = MatD<float>;
template <class T> using MC2x2Base = Mat<T>;
template <class T> using MC2x2DiagBase = MatD<T>;
using Matrix2x2 = Mat<double>;
struct MC4x4 : lax::Any { using lax::Any::Any; static MC4x4 KroneckerProduct(lax::Any, lax::Any); };
template <class T> T Norm(const Mat<T>&);
template <class T> T Norm(const MatD<T>&);
template <class T> MatD<T> Diagonal(const Mat<T>&);
template <class T> Mat<T> HermTranspose(const Mat<T>&);
template <class T> MatD<T> HermTranspose(const MatD<T>&);
template <class T> std::complex<T> Trace(const Mat<T>&);
namespace py {
template <class T> struct PyUniquePointer : lax::Any {
  using lax::Any::Any;
  std::unique_ptr<T> take();
  T& operator*();
  T* operator->();
};
}  // namespace py
}  // namespace aocommon
namespace everybeam {
using vector3r_t = std::array<double, 3>;
using real_t = double;
using vector2r_t = std::array<double, 2>;
enum class BeamMode { kNone, kFull, kArrayFactor, kElement };
enum class CorrectionMode { kNone, kFull, kArrayFactor, kElement };
enum class BeamNormalisationMode {
  kNone, kPreApplied, kPreAppliedOrFull, kAmplitude, kFull
};
enum class ElementResponseModel {
  kDefault, kHamaker, kHamakerLba, kLOBES, kOSKARDipole, kOSKARDipoleCos,
  kOSKARSphericalWave, kSkaMidAnalytical, kAartfaacInner, kAartfaacOuter,
  kLwa, kSkaLowFeko
};
enum class TelescopeType {
  kUnknownTelescope, kAARTFAAC, kATCATelescope, kGMRTTelescope,
  kLofarTelescope, kMWATelescope, kOSKARTelescope, kSkaMidTelescope,
  kOvroLwaTelescope, kVLATelescope
};
}  // namespace everybeam
namespace everybeam {
struct Options : lax::Any {
  BeamNormalisationMode beam_normalisation_mode;
  ElementResponseModel element_response_model;
  BeamMode beam_mode;
  std::string coeff_path, data_column_name;
  bool use_channel_frequency, frequency_interpolation;
};
}
namespace aoflagger {
struct Interval { std::size_t id; std::vector<double> times; };
struct Channel { double frequency, width; };
struct Band { std::size_t id; std::vector<Channel> channels; };
struct Antenna { std::size_t id; std::string name; double x, y, z; };
enum TelescopeId { GENERIC_TELESCOPE, LOFAR_TELESCOPE, AARTFAAC_TELESCOPE };
}
namespace idg { namespace api {
enum class Type {
  CPU_REFERENCE, CPU_OPTIMIZED, CUDA_GENERIC, HYBRID_CUDA_CPU_OPTIMIZED
};
enum class BufferSetType { kGridding, kDegridding, kBulkDegridding };
} }
namespace predict {
enum class computation_strategy { SINGLE, MULTI_SIMD, XSIMD };
}
namespace xt {
enum class layout_type { dynamic, any, row_major, column_major };
constexpr int newaxis_ = 0;
template <class... T> struct svector : lax::Arr<std::size_t> {};
template <class T, layout_type L = layout_type::row_major, class... R>
class xarray : public lax::Arr<T> {
 public:
  using lax::Arr<T>::Arr;
  template <class U> xarray& operator=(U&&);
};
template <class T, class S, layout_type L = layout_type::row_major, class... R>
class xtensor_fixed : public lax::Arr<T> {
 public:
  using lax::Arr<T>::Arr;
  template <class U> xtensor_fixed& operator=(U&&);
};
template <std::size_t... N> struct xshape {};
template <class E> struct xexpression : lax::Any { using lax::Any::Any; };
template <class... A> lax::Any newaxis(A&&...);
template <class E, std::size_t N, layout_type L = layout_type::row_major,
          class... R>
class xtensor_adaptor : public lax::Arr<float> {
 public:
  using lax::Arr<float>::Arr;
};
struct no_ownership {};
struct acquire_ownership {};
namespace placeholders { constexpr int _ = 0; }
}  // namespace xt
namespace schaapcommon {
template <class T> struct StaticFor {
  StaticFor();
  template <class F> void Run(T, T, F&&);
  template <class F> void Run(T, T, F&&, std::size_t);
  template <class F> void ConstrainedRun(T, T, std::size_t, F&&);
};
template <class T> struct DynamicFor {
  DynamicFor();
  template <class F> void Run(T, T, F&&);
  template <class F> void Run(T, T, F&&, std::size_t);
};
template <class T, class F> void RunStaticFor(T, T, F&&);
template <class T, class F>
void RunConstrainedStaticFor(T, T, std::size_t, F&&);
namespace h5parm {
enum class GainType {
  kScalarComplex, kScalarPhase, kScalarAmplitude, kDiagonalComplex,
  kDiagonalPhase, kDiagonalAmplitude, kFullJones, kFullJonesRealImaginary,
  kTec, kClock, kRotationAngle, kRotationMeasure, kDiagonalRealImaginary
};
class JonesParameters : public lax::Any {
 public:
  using lax::Any::Any;
  enum class InterpolationType { NEAREST, LINEAR };
  enum class MissingAntennaBehavior { kError, kFlag, kUnit };
  template <class... A> static lax::Any GainTypeToString(A&&...);
};
}  // namespace h5parm
namespace reordering {
enum class StorageManagerType { Default, Dysco, StokesI };
}
}  // namespace schaapcommon
namespace pybind11 {
template <class... T> struct class_ : lax::Any { using lax::Any::Any; };
template <class... T> struct enum_ : lax::Any { using lax::Any::Any; };
enum class return_value_policy {
  automatic, copy, move, reference, reference_internal, take_ownership
};
using ssize_t = long;
}  // namespace pybind11
namespace py = pybind11;

namespace casacore {
class AipsError : public ::lax::Any { public: using ::lax::Any::Any; AipsError(const ::lax::Any&); AipsError(::lax::Any&&); template <class T> AipsError& operator=(T&&); AipsError(); AipsError(const AipsError&); AipsError(AipsError&&); AipsError& operator=(const AipsError&); };
class ArrayMeasColumn : public ::lax::Any { public: using ::lax::Any::Any; ArrayMeasColumn(const ::lax::Any&); ArrayMeasColumn(::lax::Any&&); template <class T> ArrayMeasColumn& operator=(T&&); ArrayMeasColumn(); ArrayMeasColumn(const ArrayMeasColumn&); ArrayMeasColumn(ArrayMeasColumn&&); ArrayMeasColumn& operator=(const ArrayMeasColumn&); };
class ArrayBase : public ::lax::Any { public: using ::lax::Any::Any; ArrayBase(const ::lax::Any&); ArrayBase(::lax::Any&&); template <class T> ArrayBase& operator=(T&&); ArrayBase(); ArrayBase(const ArrayBase&); ArrayBase(ArrayBase&&); ArrayBase& operator=(const ArrayBase&); };
class ColumnDesc : public ::lax::Any { public: using ::lax::Any::Any; ColumnDesc(const ::lax::Any&); ColumnDesc(::lax::Any&&); template <class T> ColumnDesc& operator=(T&&); ColumnDesc(); ColumnDesc(const ColumnDesc&); ColumnDesc(ColumnDesc&&); ColumnDesc& operator=(const ColumnDesc&); };
class ColumnsIndex : public ::lax::Any { public: using ::lax::Any::Any; ColumnsIndex(const ::lax::Any&); ColumnsIndex(::lax::Any&&); template <class T> ColumnsIndex& operator=(T&&); ColumnsIndex(); ColumnsIndex(const ColumnsIndex&); ColumnsIndex(ColumnsIndex&&); ColumnsIndex& operator=(const ColumnsIndex&); };
class DataManInfo : public ::lax::Any { public: using ::lax::Any::Any; DataManInfo(const ::lax::Any&); DataManInfo(::lax::Any&&); template <class T> DataManInfo& operator=(T&&); DataManInfo(); DataManInfo(const DataManInfo&); DataManInfo(DataManInfo&&); DataManInfo& operator=(const DataManInfo&); };
class DataManager : public ::lax::Any { public: using ::lax::Any::Any; DataManager(const ::lax::Any&); DataManager(::lax::Any&&); template <class T> DataManager& operator=(T&&); DataManager(); DataManager(const DataManager&); DataManager(DataManager&&); DataManager& operator=(const DataManager&); };
class DataManagerCtor : public ::lax::Any { public: using ::lax::Any::Any; DataManagerCtor(const ::lax::Any&); DataManagerCtor(::lax::Any&&); template <class T> DataManagerCtor& operator=(T&&); DataManagerCtor(); DataManagerCtor(const DataManagerCtor&); DataManagerCtor(DataManagerCtor&&); DataManagerCtor& operator=(const DataManagerCtor&); };
class Directory : public ::lax::Any { public: using ::lax::Any::Any; Directory(const ::lax::Any&); Directory(::lax::Any&&); template <class T> Directory& operator=(T&&); Directory(); Directory(const Directory&); Directory(Directory&&); Directory& operator=(const Directory&); };
class DirectoryIterator : public ::lax::Any { public: using ::lax::Any::Any; DirectoryIterator(const ::lax::Any&); DirectoryIterator(::lax::Any&&); template <class T> DirectoryIterator& operator=(T&&); DirectoryIterator(); DirectoryIterator(const DirectoryIterator&); DirectoryIterator(DirectoryIterator&&); DirectoryIterator& operator=(const DirectoryIterator&); };
class FileLocker : public ::lax::Any { public: using ::lax::Any::Any; FileLocker(const ::lax::Any&); FileLocker(::lax::Any&&); template <class T> FileLocker& operator=(T&&); FileLocker(); FileLocker(const FileLocker&); FileLocker(FileLocker&&); FileLocker& operator=(const FileLocker&); };
class HostInfo : public ::lax::Any { public: using ::lax::Any::Any; HostInfo(const ::lax::Any&); HostInfo(::lax::Any&&); template <class T> HostInfo& operator=(T&&); HostInfo(); HostInfo(const HostInfo&); HostInfo(HostInfo&&); HostInfo& operator=(const HostInfo&); };
class IncrementalStMan : public ::lax::Any { public: using ::lax::Any::Any; IncrementalStMan(const ::lax::Any&); IncrementalStMan(::lax::Any&&); template <class T> IncrementalStMan& operator=(T&&); IncrementalStMan(); IncrementalStMan(const IncrementalStMan&); IncrementalStMan(IncrementalStMan&&); IncrementalStMan& operator=(const IncrementalStMan&); };
class Input : public ::lax::Any { public: using ::lax::Any::Any; Input(const ::lax::Any&); Input(::lax::Any&&); template <class T> Input& operator=(T&&); Input(); Input(const Input&); Input(Input&&); Input& operator=(const Input&); };
class LSQFit : public ::lax::Any { public: using ::lax::Any::Any; LSQFit(const ::lax::Any&); LSQFit(::lax::Any&&); template <class T> LSQFit& operator=(T&&); LSQFit(); LSQFit(const LSQFit&); LSQFit(LSQFit&&); LSQFit& operator=(const LSQFit&); };
class LogIO : public ::lax::Any { public: using ::lax::Any::Any; LogIO(const ::lax::Any&); LogIO(::lax::Any&&); template <class T> LogIO& operator=(T&&); LogIO(); LogIO(const LogIO&); LogIO(LogIO&&); LogIO& operator=(const LogIO&); };
class LogMessage : public ::lax::Any { public: using ::lax::Any::Any; LogMessage(const ::lax::Any&); LogMessage(::lax::Any&&); template <class T> LogMessage& operator=(T&&); LogMessage(); LogMessage(const LogMessage&); LogMessage(LogMessage&&); LogMessage& operator=(const LogMessage&); };
class LogSink : public ::lax::Any { public: using ::lax::Any::Any; LogSink(const ::lax::Any&); LogSink(::lax::Any&&); template <class T> LogSink& operator=(T&&); LogSink(); LogSink(const LogSink&); LogSink(LogSink&&); LogSink& operator=(const LogSink&); };
class MBaseline : public ::lax::Any { public: using ::lax::Any::Any; MBaseline(const ::lax::Any&); MBaseline(::lax::Any&&); template <class T> MBaseline& operator=(T&&); MBaseline(); MBaseline(const MBaseline&); MBaseline(MBaseline&&); MBaseline& operator=(const MBaseline&); };
class MDirection : public ::lax::Any { public: using ::lax::Any::Any; MDirection(const ::lax::Any&); MDirection(::lax::Any&&); template <class T> MDirection& operator=(T&&); MDirection(); MDirection(const MDirection&); MDirection(MDirection&&); MDirection& operator=(const MDirection&); };
class MEpoch : public ::lax::Any { public: using ::lax::Any::Any; MEpoch(const ::lax::Any&); MEpoch(::lax::Any&&); template <class T> MEpoch& operator=(T&&); MEpoch(); MEpoch(const MEpoch&); MEpoch(MEpoch&&); MEpoch& operator=(const MEpoch&); };
class MFrequency : public ::lax::Any { public: using ::lax::Any::Any; MFrequency(const ::lax::Any&); MFrequency(::lax::Any&&); template <class T> MFrequency& operator=(T&&); MFrequency(); MFrequency(const MFrequency&); MFrequency(MFrequency&&); MFrequency& operator=(const MFrequency&); };
class MPosition : public ::lax::Any { public: using ::lax::Any::Any; MPosition(const ::lax::Any&); MPosition(::lax::Any&&); template <class T> MPosition& operator=(T&&); MPosition(); MPosition(const MPosition&); MPosition(MPosition&&); MPosition& operator=(const MPosition&); };
class MS : public ::lax::Any { public: using ::lax::Any::Any; MS(const ::lax::Any&); MS(::lax::Any&&); template <class T> MS& operator=(T&&); MS(); MS(const MS&); MS(MS&&); MS& operator=(const MS&); };
class MSAntenna : public ::lax::Any { public: using ::lax::Any::Any; MSAntenna(const ::lax::Any&); MSAntenna(::lax::Any&&); template <class T> MSAntenna& operator=(T&&); MSAntenna(); MSAntenna(const MSAntenna&); MSAntenna(MSAntenna&&); MSAntenna& operator=(const MSAntenna&); };
class MSAntennaColumns : public ::lax::Any { public: using ::lax::Any::Any; MSAntennaColumns(const ::lax::Any&); MSAntennaColumns(::lax::Any&&); template <class T> MSAntennaColumns& operator=(T&&); MSAntennaColumns(); MSAntennaColumns(const MSAntennaColumns&); MSAntennaColumns(MSAntennaColumns&&); MSAntennaColumns& operator=(const MSAntennaColumns&); };
class MSAntennaParse : public ::lax::Any { public: using ::lax::Any::Any; MSAntennaParse(const ::lax::Any&); MSAntennaParse(::lax::Any&&); template <class T> MSAntennaParse& operator=(T&&); MSAntennaParse(); MSAntennaParse(const MSAntennaParse&); MSAntennaParse(MSAntennaParse&&); MSAntennaParse& operator=(const MSAntennaParse&); };
class MSDataDescription : public ::lax::Any { public: using ::lax::Any::Any; MSDataDescription(const ::lax::Any&); MSDataDescription(::lax::Any&&); template <class T> MSDataDescription& operator=(T&&); MSDataDescription(); MSDataDescription(const MSDataDescription&); MSDataDescription(MSDataDescription&&); MSDataDescription& operator=(const MSDataDescription&); };
class MSField : public ::lax::Any { public: using ::lax::Any::Any; MSField(const ::lax::Any&); MSField(::lax::Any&&); template <class T> MSField& operator=(T&&); MSField(); MSField(const MSField&); MSField(MSField&&); MSField& operator=(const MSField&); };
class MSMainEnums : public ::lax::Any { public: using ::lax::Any::Any; MSMainEnums(const ::lax::Any&); MSMainEnums(::lax::Any&&); template <class T> MSMainEnums& operator=(T&&); MSMainEnums(); MSMainEnums(const MSMainEnums&); MSMainEnums(MSMainEnums&&); MSMainEnums& operator=(const MSMainEnums&); };
class MSObservation : public ::lax::Any { public: using ::lax::Any::Any; MSObservation(const ::lax::Any&); MSObservation(::lax::Any&&); template <class T> MSObservation& operator=(T&&); MSObservation(); MSObservation(const MSObservation&); MSObservation(MSObservation&&); MSObservation& operator=(const MSObservation&); };
class MSPolarization : public ::lax::Any { public: using ::lax::Any::Any; MSPolarization(const ::lax::Any&); MSPolarization(::lax::Any&&); template <class T> MSPolarization& operator=(T&&); MSPolarization(); MSPolarization(const MSPolarization&); MSPolarization(MSPolarization&&); MSPolarization& operator=(const MSPolarization&); };
class MSPolarizationEnums : public ::lax::Any { public: using ::lax::Any::Any; MSPolarizationEnums(const ::lax::Any&); MSPolarizationEnums(::lax::Any&&); template <class T> MSPolarizationEnums& operator=(T&&); MSPolarizationEnums(); MSPolarizationEnums(const MSPolarizationEnums&); MSPolarizationEnums(MSPolarizationEnums&&); MSPolarizationEnums& operator=(const MSPolarizationEnums&); };
class MSSelection : public ::lax::Any { public: using ::lax::Any::Any; MSSelection(const ::lax::Any&); MSSelection(::lax::Any&&); template <class T> MSSelection& operator=(T&&); MSSelection(); MSSelection(const MSSelection&); MSSelection(MSSelection&&); MSSelection& operator=(const MSSelection&); };
class MSFieldColumns : public ::lax::Any { public: using ::lax::Any::Any; MSFieldColumns(const ::lax::Any&); MSFieldColumns(::lax::Any&&); template <class T> MSFieldColumns& operator=(T&&); MSFieldColumns(); MSFieldColumns(const MSFieldColumns&); MSFieldColumns(MSFieldColumns&&); MSFieldColumns& operator=(const MSFieldColumns&); };
class MSSelectionErrorHandler : public ::lax::Any { public: using ::lax::Any::Any; MSSelectionErrorHandler(const ::lax::Any&); MSSelectionErrorHandler(::lax::Any&&); template <class T> MSSelectionErrorHandler& operator=(T&&); MSSelectionErrorHandler(); MSSelectionErrorHandler(const MSSelectionErrorHandler&); MSSelectionErrorHandler(MSSelectionErrorHandler&&); MSSelectionErrorHandler& operator=(const MSSelectionErrorHandler&); };
class MSSpectralWindow : public ::lax::Any { public: using ::lax::Any::Any; MSSpectralWindow(const ::lax::Any&); MSSpectralWindow(::lax::Any&&); template <class T> MSSpectralWindow& operator=(T&&); MSSpectralWindow(); MSSpectralWindow(const MSSpectralWindow&); MSSpectralWindow(MSSpectralWindow&&); MSSpectralWindow& operator=(const MSSpectralWindow&); };
class MSSummary : public ::lax::Any { public: using ::lax::Any::Any; MSSummary(const ::lax::Any&); MSSummary(::lax::Any&&); template <class T> MSSummary& operator=(T&&); MSSummary(); MSSummary(const MSSummary&); MSSummary(MSSummary&&); MSSummary& operator=(const MSSummary&); };
class MVAngle : public ::lax::Any { public: using ::lax::Any::Any; MVAngle(const ::lax::Any&); MVAngle(::lax::Any&&); template <class T> MVAngle& operator=(T&&); MVAngle(); MVAngle(const MVAngle&); MVAngle(MVAngle&&); MVAngle& operator=(const MVAngle&); };
class MVDirection : public ::lax::Any { public: using ::lax::Any::Any; MVDirection(const ::lax::Any&); MVDirection(::lax::Any&&); template <class T> MVDirection& operator=(T&&); MVDirection(); MVDirection(const MVDirection&); MVDirection(MVDirection&&); MVDirection& operator=(const MVDirection&); };
class MVEpoch : public ::lax::Any { public: using ::lax::Any::Any; MVEpoch(const ::lax::Any&); MVEpoch(::lax::Any&&); template <class T> MVEpoch& operator=(T&&); MVEpoch(); MVEpoch(const MVEpoch&); MVEpoch(MVEpoch&&); MVEpoch& operator=(const MVEpoch&); };
class MVPosition : public ::lax::Any { public: using ::lax::Any::Any; MVPosition(const ::lax::Any&); MVPosition(::lax::Any&&); template <class T> MVPosition& operator=(T&&); MVPosition(); MVPosition(const MVPosition&); MVPosition(MVPosition&&); MVPosition& operator=(const MVPosition&); };
class MVTime : public ::lax::Any { public: using ::lax::Any::Any; MVTime(const ::lax::Any&); MVTime(::lax::Any&&); template <class T> MVTime& operator=(T&&); MVTime(); MVTime(const MVTime&); MVTime(MVTime&&); MVTime& operator=(const MVTime&); };
class MeasFrame : public ::lax::Any { public: using ::lax::Any::Any; MeasFrame(const ::lax::Any&); MeasFrame(::lax::Any&&); template <class T> MeasFrame& operator=(T&&); MeasFrame(); MeasFrame(const MeasFrame&); MeasFrame(MeasFrame&&); MeasFrame& operator=(const MeasFrame&); };
class MeasTable : public ::lax::Any { public: using ::lax::Any::Any; MeasTable(const ::lax::Any&); MeasTable(::lax::Any&&); template <class T> MeasTable& operator=(T&&); MeasTable(); MeasTable(const MeasTable&); MeasTable(MeasTable&&); MeasTable& operator=(const MeasTable&); };
class Measure : public ::lax::Any { public: using ::lax::Any::Any; Measure(const ::lax::Any&); Measure(::lax::Any&&); template <class T> Measure& operator=(T&&); Measure(); Measure(const Measure&); Measure(Measure&&); Measure& operator=(const Measure&); };
class MeasureHolder : public ::lax::Any { public: using ::lax::Any::Any; MeasureHolder(const ::lax::Any&); MeasureHolder(::lax::Any&&); template <class T> MeasureHolder& operator=(T&&); MeasureHolder(); MeasureHolder(const MeasureHolder&); MeasureHolder(MeasureHolder&&); MeasureHolder& operator=(const MeasureHolder&); };
class MeasurementSet : public ::lax::Any { public: using ::lax::Any::Any; MeasurementSet(const ::lax::Any&); MeasurementSet(::lax::Any&&); template <class T> MeasurementSet& operator=(T&&); MeasurementSet(); MeasurementSet(const MeasurementSet&); MeasurementSet(MeasurementSet&&); MeasurementSet& operator=(const MeasurementSet&); };
class Muvw : public ::lax::Any { public: using ::lax::Any::Any; Muvw(const ::lax::Any&); Muvw(::lax::Any&&); template <class T> Muvw& operator=(T&&); Muvw(); Muvw(const Muvw&); Muvw(Muvw&&); Muvw& operator=(const Muvw&); };
class MVuvw : public ::lax::Any { public: using ::lax::Any::Any; MVuvw(const ::lax::Any&); MVuvw(::lax::Any&&); template <class T> MVuvw& operator=(T&&); MVuvw(); MVuvw(const MVuvw&); MVuvw(MVuvw&&); MVuvw& operator=(const MVuvw&); };
class MVBaseline : public ::lax::Any { public: using ::lax::Any::Any; MVBaseline(const ::lax::Any&); MVBaseline(::lax::Any&&); template <class T> MVBaseline& operator=(T&&); MVBaseline(); MVBaseline(const MVBaseline&); MVBaseline(MVBaseline&&); MVBaseline& operator=(const MVBaseline&); };
class Nutation : public ::lax::Any { public: using ::lax::Any::Any; Nutation(const ::lax::Any&); Nutation(::lax::Any&&); template <class T> Nutation& operator=(T&&); Nutation(); Nutation(const Nutation&); Nutation(Nutation&&); Nutation& operator=(const Nutation&); };
class Path : public ::lax::Any { public: using ::lax::Any::Any; Path(const ::lax::Any&); Path(::lax::Any&&); template <class T> Path& operator=(T&&); Path(); Path(const Path&); Path(Path&&); Path& operator=(const Path&); };
class Precession : public ::lax::Any { public: using ::lax::Any::Any; Precession(const ::lax::Any&); Precession(::lax::Any&&); template <class T> Precession& operator=(T&&); Precession(); Precession(const Precession&); Precession(Precession&&); Precession& operator=(const Precession&); };
class RXidentifier : public ::lax::Any { public: using ::lax::Any::Any; RXidentifier(const ::lax::Any&); RXidentifier(::lax::Any&&); template <class T> RXidentifier& operator=(T&&); RXidentifier(); RXidentifier(const RXidentifier&); RXidentifier(RXidentifier&&); RXidentifier& operator=(const RXidentifier&); };
class Record : public ::lax::Any { public: using ::lax::Any::Any; Record(const ::lax::Any&); Record(::lax::Any&&); template <class T> Record& operator=(T&&); Record(); Record(const Record&); Record(Record&&); Record& operator=(const Record&); };
class RecordInterface : public ::lax::Any { public: using ::lax::Any::Any; RecordInterface(const ::lax::Any&); RecordInterface(::lax::Any&&); template <class T> RecordInterface& operator=(T&&); RecordInterface(); RecordInterface(const RecordInterface&); RecordInterface(RecordInterface&&); RecordInterface& operator=(const RecordInterface&); };
class RecordGram : public ::lax::Any { public: using ::lax::Any::Any; RecordGram(const ::lax::Any&); RecordGram(::lax::Any&&); template <class T> RecordGram& operator=(T&&); RecordGram(); RecordGram(const RecordGram&); RecordGram(RecordGram&&); RecordGram& operator=(const RecordGram&); };
class RefRows : public ::lax::Any { public: using ::lax::Any::Any; RefRows(const ::lax::Any&); RefRows(::lax::Any&&); template <class T> RefRows& operator=(T&&); RefRows(); RefRows(const RefRows&); RefRows(RefRows&&); RefRows& operator=(const RefRows&); };
class Regex : public ::lax::Any { public: using ::lax::Any::Any; Regex(const ::lax::Any&); Regex(::lax::Any&&); template <class T> Regex& operator=(T&&); Regex(); Regex(const Regex&); Regex(Regex&&); Regex& operator=(const Regex&); };
class RotMatrix : public ::lax::Any { public: using ::lax::Any::Any; RotMatrix(const ::lax::Any&); RotMatrix(::lax::Any&&); template <class T> RotMatrix& operator=(T&&); RotMatrix(); RotMatrix(const RotMatrix&); RotMatrix(RotMatrix&&); RotMatrix& operator=(const RotMatrix&); };
class ScalarMeasColumnBase : public ::lax::Any { public: using ::lax::Any::Any; ScalarMeasColumnBase(const ::lax::Any&); ScalarMeasColumnBase(::lax::Any&&); template <class T> ScalarMeasColumnBase& operator=(T&&); ScalarMeasColumnBase(); ScalarMeasColumnBase(const ScalarMeasColumnBase&); ScalarMeasColumnBase(ScalarMeasColumnBase&&); ScalarMeasColumnBase& operator=(const ScalarMeasColumnBase&); };
class SetupNewTable : public ::lax::Any { public: using ::lax::Any::Any; SetupNewTable(const ::lax::Any&); SetupNewTable(::lax::Any&&); template <class T> SetupNewTable& operator=(T&&); SetupNewTable(); SetupNewTable(const SetupNewTable&); SetupNewTable(SetupNewTable&&); SetupNewTable& operator=(const SetupNewTable&); };
class Slicer : public ::lax::Any { public: using ::lax::Any::Any; Slicer(const ::lax::Any&); Slicer(::lax::Any&&); template <class T> Slicer& operator=(T&&); Slicer(); Slicer(const Slicer&); Slicer(Slicer&&); Slicer& operator=(const Slicer&); };
class Slice : public ::lax::Any { public: using ::lax::Any::Any; Slice(const ::lax::Any&); Slice(::lax::Any&&); template <class T> Slice& operator=(T&&); Slice(); Slice(const Slice&); Slice(Slice&&); Slice& operator=(const Slice&); };
class Sort : public ::lax::Any { public: using ::lax::Any::Any; Sort(const ::lax::Any&); Sort(::lax::Any&&); template <class T> Sort& operator=(T&&); Sort(); Sort(const Sort&); Sort(Sort&&); Sort& operator=(const Sort&); };
class StandardStMan : public ::lax::Any { public: using ::lax::Any::Any; StandardStMan(const ::lax::Any&); StandardStMan(::lax::Any&&); template <class T> StandardStMan& operator=(T&&); StandardStMan(); StandardStMan(const StandardStMan&); StandardStMan(StandardStMan&&); StandardStMan& operator=(const StandardStMan&); };
class SymbolicLink : public ::lax::Any { public: using ::lax::Any::Any; SymbolicLink(const ::lax::Any&); SymbolicLink(::lax::Any&&); template <class T> SymbolicLink& operator=(T&&); SymbolicLink(); SymbolicLink(const SymbolicLink&); SymbolicLink(SymbolicLink&&); SymbolicLink& operator=(const SymbolicLink&); };
class Table : public ::lax::Any { public: using ::lax::Any::Any; Table(const ::lax::Any&); Table(::lax::Any&&); template <class T> Table& operator=(T&&); Table(); Table(const Table&); Table(Table&&); Table& operator=(const Table&); };
class TableColumn : public ::lax::Any { public: using ::lax::Any::Any; TableColumn(const ::lax::Any&); TableColumn(::lax::Any&&); template <class T> TableColumn& operator=(T&&); TableColumn(); TableColumn(const TableColumn&); TableColumn(TableColumn&&); TableColumn& operator=(const TableColumn&); };
class TableCopy : public ::lax::Any { public: using ::lax::Any::Any; TableCopy(const ::lax::Any&); TableCopy(::lax::Any&&); template <class T> TableCopy& operator=(T&&); TableCopy(); TableCopy(const TableCopy&); TableCopy(TableCopy&&); TableCopy& operator=(const TableCopy&); };
class TableDesc : public ::lax::Any { public: using ::lax::Any::Any; TableDesc(const ::lax::Any&); TableDesc(::lax::Any&&); template <class T> TableDesc& operator=(T&&); TableDesc(); TableDesc(const TableDesc&); TableDesc(TableDesc&&); TableDesc& operator=(const TableDesc&); };
class TableExprNode : public ::lax::Any { public: using ::lax::Any::Any; TableExprNode(const ::lax::Any&); TableExprNode(::lax::Any&&); template <class T> TableExprNode& operator=(T&&); TableExprNode(); TableExprNode(const TableExprNode&); TableExprNode(TableExprNode&&); TableExprNode& operator=(const TableExprNode&); };
class TableIterator : public ::lax::Any { public: using ::lax::Any::Any; TableIterator(const ::lax::Any&); TableIterator(::lax::Any&&); template <class T> TableIterator& operator=(T&&); TableIterator(); TableIterator(const TableIterator&); TableIterator(TableIterator&&); TableIterator& operator=(const TableIterator&); };
class TableLock : public ::lax::Any { public: using ::lax::Any::Any; TableLock(const ::lax::Any&); TableLock(::lax::Any&&); template <class T> TableLock& operator=(T&&); TableLock(); TableLock(const TableLock&); TableLock(TableLock&&); TableLock& operator=(const TableLock&); };
class TableLocker : public ::lax::Any { public: using ::lax::Any::Any; TableLocker(const ::lax::Any&); TableLocker(::lax::Any&&); template <class T> TableLocker& operator=(T&&); TableLocker(); TableLocker(const TableLocker&); TableLocker(TableLocker&&); TableLocker& operator=(const TableLocker&); };
class TableRecord : public ::lax::Any { public: using ::lax::Any::Any; TableRecord(const ::lax::Any&); TableRecord(::lax::Any&&); template <class T> TableRecord& operator=(T&&); TableRecord(); TableRecord(const TableRecord&); TableRecord(TableRecord&&); TableRecord& operator=(const TableRecord&); };
class TableRow : public ::lax::Any { public: using ::lax::Any::Any; TableRow(const ::lax::Any&); TableRow(::lax::Any&&); template <class T> TableRow& operator=(T&&); TableRow(); TableRow(const TableRow&); TableRow(TableRow&&); TableRow& operator=(const TableRow&); };
class ROTableRow : public ::lax::Any { public: using ::lax::Any::Any; ROTableRow(const ::lax::Any&); ROTableRow(::lax::Any&&); template <class T> ROTableRow& operator=(T&&); ROTableRow(); ROTableRow(const ROTableRow&); ROTableRow(ROTableRow&&); ROTableRow& operator=(const ROTableRow&); };
class TiledColumnStMan : public ::lax::Any { public: using ::lax::Any::Any; TiledColumnStMan(const ::lax::Any&); TiledColumnStMan(::lax::Any&&); template <class T> TiledColumnStMan& operator=(T&&); TiledColumnStMan(); TiledColumnStMan(const TiledColumnStMan&); TiledColumnStMan(TiledColumnStMan&&); TiledColumnStMan& operator=(const TiledColumnStMan&); };
class Time : public ::lax::Any { public: using ::lax::Any::Any; Time(const ::lax::Any&); Time(::lax::Any&&); template <class T> Time& operator=(T&&); Time(); Time(const Time&); Time(Time&&); Time& operator=(const Time&); };
class Timer : public ::lax::Any { public: using ::lax::Any::Any; Timer(const ::lax::Any&); Timer(::lax::Any&&); template <class T> Timer& operator=(T&&); Timer(); Timer(const Timer&); Timer(Timer&&); Timer& operator=(const Timer&); };
class MSDataDescColumns : public ::lax::Any { public: using ::lax::Any::Any; MSDataDescColumns(const ::lax::Any&); MSDataDescColumns(::lax::Any&&); template <class T> MSDataDescColumns& operator=(T&&); MSDataDescColumns(); MSDataDescColumns(const MSDataDescColumns&); MSDataDescColumns(MSDataDescColumns&&); MSDataDescColumns& operator=(const MSDataDescColumns&); };
class MSSpWindowColumns : public ::lax::Any { public: using ::lax::Any::Any; MSSpWindowColumns(const ::lax::Any&); MSSpWindowColumns(::lax::Any&&); template <class T> MSSpWindowColumns& operator=(T&&); MSSpWindowColumns(); MSSpWindowColumns(const MSSpWindowColumns&); MSSpWindowColumns(MSSpWindowColumns&&); MSSpWindowColumns& operator=(const MSSpWindowColumns&); };
class MSPolarizationColumns : public ::lax::Any { public: using ::lax::Any::Any; MSPolarizationColumns(const ::lax::Any&); MSPolarizationColumns(::lax::Any&&); template <class T> MSPolarizationColumns& operator=(T&&); MSPolarizationColumns(); MSPolarizationColumns(const MSPolarizationColumns&); MSPolarizationColumns(MSPolarizationColumns&&); MSPolarizationColumns& operator=(const MSPolarizationColumns&); };
class MSMainColumns : public ::lax::Any { public: using ::lax::Any::Any; MSMainColumns(const ::lax::Any&); MSMainColumns(::lax::Any&&); template <class T> MSMainColumns& operator=(T&&); MSMainColumns(); MSMainColumns(const MSMainColumns&); MSMainColumns(MSMainColumns&&); MSMainColumns& operator=(const MSMainColumns&); };
class ArrayBaseColumn : public ::lax::Any { public: using ::lax::Any::Any; ArrayBaseColumn(const ::lax::Any&); ArrayBaseColumn(::lax::Any&&); template <class T> ArrayBaseColumn& operator=(T&&); ArrayBaseColumn(); ArrayBaseColumn(const ArrayBaseColumn&); ArrayBaseColumn(ArrayBaseColumn&&); ArrayBaseColumn& operator=(const ArrayBaseColumn&); };
class File : public ::lax::Any { public: using ::lax::Any::Any; File(const ::lax::Any&); File(::lax::Any&&); template <class T> File& operator=(T&&); File(); File(const File&); File(File&&); File& operator=(const File&); };
class RegularFile : public ::lax::Any { public: using ::lax::Any::Any; RegularFile(const ::lax::Any&); RegularFile(::lax::Any&&); template <class T> RegularFile& operator=(T&&); RegularFile(); RegularFile(const RegularFile&); RegularFile(RegularFile&&); RegularFile& operator=(const RegularFile&); };
class MRadialVelocity : public ::lax::Any { public: using ::lax::Any::Any; MRadialVelocity(const ::lax::Any&); MRadialVelocity(::lax::Any&&); template <class T> MRadialVelocity& operator=(T&&); MRadialVelocity(); MRadialVelocity(const MRadialVelocity&); MRadialVelocity(MRadialVelocity&&); MRadialVelocity& operator=(const MRadialVelocity&); };
class TaQLResult : public ::lax::Any { public: using ::lax::Any::Any; TaQLResult(const ::lax::Any&); TaQLResult(::lax::Any&&); template <class T> TaQLResult& operator=(T&&); TaQLResult(); TaQLResult(const TaQLResult&); TaQLResult(TaQLResult&&); TaQLResult& operator=(const TaQLResult&); };
class Stokes : public ::lax::Any { public: using ::lax::Any::Any; Stokes(const ::lax::Any&); Stokes(::lax::Any&&); template <class T> Stokes& operator=(T&&); Stokes(); Stokes(const Stokes&); Stokes(Stokes&&); Stokes& operator=(const Stokes&); };
class LSQaips : public ::lax::Any { public: using ::lax::Any::Any; LSQaips(const ::lax::Any&); LSQaips(::lax::Any&&); template <class T> LSQaips& operator=(T&&); LSQaips(); LSQaips(const LSQaips&); LSQaips(LSQaips&&); LSQaips& operator=(const LSQaips&); };
class RowCopier : public ::lax::Any { public: using ::lax::Any::Any; RowCopier(const ::lax::Any&); RowCopier(::lax::Any&&); template <class T> RowCopier& operator=(T&&); RowCopier(); RowCopier(const RowCopier&); RowCopier(RowCopier&&); RowCopier& operator=(const RowCopier&); };
class ROTiledStManAccessor : public ::lax::Any { public: using ::lax::Any::Any; ROTiledStManAccessor(const ::lax::Any&); ROTiledStManAccessor(::lax::Any&&); template <class T> ROTiledStManAccessor& operator=(T&&); ROTiledStManAccessor(); ROTiledStManAccessor(const ROTiledStManAccessor&); ROTiledStManAccessor(ROTiledStManAccessor&&); ROTiledStManAccessor& operator=(const ROTiledStManAccessor&); };
class TiledStManAccessor : public ::lax::Any { public: using ::lax::Any::Any; TiledStManAccessor(const ::lax::Any&); TiledStManAccessor(::lax::Any&&); template <class T> TiledStManAccessor& operator=(T&&); TiledStManAccessor(); TiledStManAccessor(const TiledStManAccessor&); TiledStManAccessor(TiledStManAccessor&&); TiledStManAccessor& operator=(const TiledStManAccessor&); };
class MSAntennaEnums : public ::lax::Any { public: using ::lax::Any::Any; MSAntennaEnums(const ::lax::Any&); MSAntennaEnums(::lax::Any&&); template <class T> MSAntennaEnums& operator=(T&&); MSAntennaEnums(); MSAntennaEnums(const MSAntennaEnums&); MSAntennaEnums(MSAntennaEnums&&); MSAntennaEnums& operator=(const MSAntennaEnums&); };
class MSColumns : public ::lax::Any { public: using ::lax::Any::Any; MSColumns(const ::lax::Any&); MSColumns(::lax::Any&&); template <class T> MSColumns& operator=(T&&); MSColumns(); MSColumns(const MSColumns&); MSColumns(MSColumns&&); MSColumns& operator=(const MSColumns&); };
class ROMSColumns : public ::lax::Any { public: using ::lax::Any::Any; ROMSColumns(const ::lax::Any&); ROMSColumns(::lax::Any&&); template <class T> ROMSColumns& operator=(T&&); ROMSColumns(); ROMSColumns(const ROMSColumns&); ROMSColumns(ROMSColumns&&); ROMSColumns& operator=(const ROMSColumns&); };
class TableParse : public ::lax::Any { public: using ::lax::Any::Any; TableParse(const ::lax::Any&); TableParse(::lax::Any&&); template <class T> TableParse& operator=(T&&); TableParse(); TableParse(const TableParse&); TableParse(TableParse&&); TableParse& operator=(const TableParse&); };
class MSSelectionKeywords : public ::lax::Any { public: using ::lax::Any::Any; MSSelectionKeywords(const ::lax::Any&); MSSelectionKeywords(::lax::Any&&); template <class T> MSSelectionKeywords& operator=(T&&); MSSelectionKeywords(); MSSelectionKeywords(const MSSelectionKeywords&); MSSelectionKeywords(MSSelectionKeywords&&); MSSelectionKeywords& operator=(const MSSelectionKeywords&); };
class StManAipsIO : public ::lax::Any { public: using ::lax::Any::Any; StManAipsIO(const ::lax::Any&); StManAipsIO(::lax::Any&&); template <class T> StManAipsIO& operator=(T&&); StManAipsIO(); StManAipsIO(const StManAipsIO&); StManAipsIO(StManAipsIO&&); StManAipsIO& operator=(const StManAipsIO&); };
class CanonicalConversion : public ::lax::Any { public: using ::lax::Any::Any; CanonicalConversion(const ::lax::Any&); CanonicalConversion(::lax::Any&&); template <class T> CanonicalConversion& operator=(T&&); CanonicalConversion(); CanonicalConversion(const CanonicalConversion&); CanonicalConversion(CanonicalConversion&&); CanonicalConversion& operator=(const CanonicalConversion&); };
class Conversion : public ::lax::Any { public: using ::lax::Any::Any; Conversion(const ::lax::Any&); Conversion(::lax::Any&&); template <class T> Conversion& operator=(T&&); Conversion(); Conversion(const Conversion&); Conversion(Conversion&&); Conversion& operator=(const Conversion&); };
class MDoppler : public ::lax::Any { public: using ::lax::Any::Any; MDoppler(const ::lax::Any&); MDoppler(::lax::Any&&); template <class T> MDoppler& operator=(T&&); MDoppler(); MDoppler(const MDoppler&); MDoppler(MDoppler&&); MDoppler& operator=(const MDoppler&); };
class PrecisionTime : public ::lax::Any { public: using ::lax::Any::Any; PrecisionTime(const ::lax::Any&); PrecisionTime(::lax::Any&&); template <class T> PrecisionTime& operator=(T&&); PrecisionTime(); PrecisionTime(const PrecisionTime&); PrecisionTime(PrecisionTime&&); PrecisionTime& operator=(const PrecisionTime&); };
class DataManagerColumn : public ::lax::Any { public: using ::lax::Any::Any; DataManagerColumn(const ::lax::Any&); DataManagerColumn(::lax::Any&&); template <class T> DataManagerColumn& operator=(T&&); DataManagerColumn(); DataManagerColumn(const DataManagerColumn&); DataManagerColumn(DataManagerColumn&&); DataManagerColumn& operator=(const DataManagerColumn&); };
class JsonOut : public ::lax::Any { public: using ::lax::Any::Any; JsonOut(const ::lax::Any&); JsonOut(::lax::Any&&); template <class T> JsonOut& operator=(T&&); JsonOut(); JsonOut(const JsonOut&); JsonOut(JsonOut&&); JsonOut& operator=(const JsonOut&); };
class JsonParser : public ::lax::Any { public: using ::lax::Any::Any; JsonParser(const ::lax::Any&); JsonParser(::lax::Any&&); template <class T> JsonParser& operator=(T&&); JsonParser(); JsonParser(const JsonParser&); JsonParser(JsonParser&&); JsonParser& operator=(const JsonParser&); };
class ValueHolder : public ::lax::Any { public: using ::lax::Any::Any; ValueHolder(const ::lax::Any&); ValueHolder(::lax::Any&&); template <class T> ValueHolder& operator=(T&&); ValueHolder(); ValueHolder(const ValueHolder&); ValueHolder(ValueHolder&&); ValueHolder& operator=(const ValueHolder&); };
class TableError : public ::lax::Any { public: using ::lax::Any::Any; TableError(const ::lax::Any&); TableError(::lax::Any&&); template <class T> TableError& operator=(T&&); TableError(); TableError(const TableError&); TableError(TableError&&); TableError& operator=(const TableError&); };
class ConstantStMan : public ::lax::Any { public: using ::lax::Any::Any; ConstantStMan(const ::lax::Any&); ConstantStMan(::lax::Any&&); template <class T> ConstantStMan& operator=(T&&); ConstantStMan(); ConstantStMan(const ConstantStMan&); ConstantStMan(ConstantStMan&&); ConstantStMan& operator=(const ConstantStMan&); };
class MSStokes : public ::lax::Any { public: using ::lax::Any::Any; MSStokes(const ::lax::Any&); MSStokes(::lax::Any&&); template <class T> MSStokes& operator=(T&&); MSStokes(); MSStokes(const MSStokes&); MSStokes(MSStokes&&); MSStokes& operator=(const MSStokes&); };
class ArrayColumnBase : public ::lax::Any { public: using ::lax::Any::Any; ArrayColumnBase(const ::lax::Any&); ArrayColumnBase(::lax::Any&&); template <class T> ArrayColumnBase& operator=(T&&); ArrayColumnBase(); ArrayColumnBase(const ArrayColumnBase&); ArrayColumnBase(ArrayColumnBase&&); ArrayColumnBase& operator=(const ArrayColumnBase&); };
class MSSource : public ::lax::Any { public: using ::lax::Any::Any; MSSource(const ::lax::Any&); MSSource(::lax::Any&&); template <class T> MSSource& operator=(T&&); MSSource(); MSSource(const MSSource&); MSSource(MSSource&&); MSSource& operator=(const MSSource&); };
class MSSourceEnums : public ::lax::Any { public: using ::lax::Any::Any; MSSourceEnums(const ::lax::Any&); MSSourceEnums(::lax::Any&&); template <class T> MSSourceEnums& operator=(T&&); MSSourceEnums(); MSSourceEnums(const MSSourceEnums&); MSSourceEnums(MSSourceEnums&&); MSSourceEnums& operator=(const MSSourceEnums&); };
class MSFeed : public ::lax::Any { public: using ::lax::Any::Any; MSFeed(const ::lax::Any&); MSFeed(::lax::Any&&); template <class T> MSFeed& operator=(T&&); MSFeed(); MSFeed(const MSFeed&); MSFeed(MSFeed&&); MSFeed& operator=(const MSFeed&); };
class MSFeedEnums : public ::lax::Any { public: using ::lax::Any::Any; MSFeedEnums(const ::lax::Any&); MSFeedEnums(::lax::Any&&); template <class T> MSFeedEnums& operator=(T&&); MSFeedEnums(); MSFeedEnums(const MSFeedEnums&); MSFeedEnums(MSFeedEnums&&); MSFeedEnums& operator=(const MSFeedEnums&); };
class MSFieldEnums : public ::lax::Any { public: using ::lax::Any::Any; MSFieldEnums(const ::lax::Any&); MSFieldEnums(::lax::Any&&); template <class T> MSFieldEnums& operator=(T&&); MSFieldEnums(); MSFieldEnums(const MSFieldEnums&); MSFieldEnums(MSFieldEnums&&); MSFieldEnums& operator=(const MSFieldEnums&); };
class MSSpectralWindowEnums : public ::lax::Any { public: using ::lax::Any::Any; MSSpectralWindowEnums(const ::lax::Any&); MSSpectralWindowEnums(::lax::Any&&); template <class T> MSSpectralWindowEnums& operator=(T&&); MSSpectralWindowEnums(); MSSpectralWindowEnums(const MSSpectralWindowEnums&); MSSpectralWindowEnums(MSSpectralWindowEnums&&); MSSpectralWindowEnums& operator=(const MSSpectralWindowEnums&); };
class MSDataDescriptionEnums : public ::lax::Any { public: using ::lax::Any::Any; MSDataDescriptionEnums(const ::lax::Any&); MSDataDescriptionEnums(::lax::Any&&); template <class T> MSDataDescriptionEnums& operator=(T&&); MSDataDescriptionEnums(); MSDataDescriptionEnums(const MSDataDescriptionEnums&); MSDataDescriptionEnums(MSDataDescriptionEnums&&); MSDataDescriptionEnums& operator=(const MSDataDescriptionEnums&); };
class MSObservationEnums : public ::lax::Any { public: using ::lax::Any::Any; MSObservationEnums(const ::lax::Any&); MSObservationEnums(::lax::Any&&); template <class T> MSObservationEnums& operator=(T&&); MSObservationEnums(); MSObservationEnums(const MSObservationEnums&); MSObservationEnums(MSObservationEnums&&); MSObservationEnums& operator=(const MSObservationEnums&); };
class MSPointingEnums : public ::lax::Any { public: using ::lax::Any::Any; MSPointingEnums(const ::lax::Any&); MSPointingEnums(::lax::Any&&); template <class T> MSPointingEnums& operator=(T&&); MSPointingEnums(); MSPointingEnums(const MSPointingEnums&); MSPointingEnums(MSPointingEnums&&); MSPointingEnums& operator=(const MSPointingEnums&); };
class MSStateEnums : public ::lax::Any { public: using ::lax::Any::Any; MSStateEnums(const ::lax::Any&); MSStateEnums(::lax::Any&&); template <class T> MSStateEnums& operator=(T&&); MSStateEnums(); MSStateEnums(const MSStateEnums&); MSStateEnums(MSStateEnums&&); MSStateEnums& operator=(const MSStateEnums&); };
class MSHistoryEnums : public ::lax::Any { public: using ::lax::Any::Any; MSHistoryEnums(const ::lax::Any&); MSHistoryEnums(::lax::Any&&); template <class T> MSHistoryEnums& operator=(T&&); MSHistoryEnums(); MSHistoryEnums(const MSHistoryEnums&); MSHistoryEnums(MSHistoryEnums&&); MSHistoryEnums& operator=(const MSHistoryEnums&); };
class MSProcessorEnums : public ::lax::Any { public: using ::lax::Any::Any; MSProcessorEnums(const ::lax::Any&); MSProcessorEnums(::lax::Any&&); template <class T> MSProcessorEnums& operator=(T&&); MSProcessorEnums(); MSProcessorEnums(const MSProcessorEnums&); MSProcessorEnums(MSProcessorEnums&&); MSProcessorEnums& operator=(const MSProcessorEnums&); };
class MSSourceColumns : public ::lax::Any { public: using ::lax::Any::Any; MSSourceColumns(const ::lax::Any&); MSSourceColumns(::lax::Any&&); template <class T> MSSourceColumns& operator=(T&&); MSSourceColumns(); MSSourceColumns(const MSSourceColumns&); MSSourceColumns(MSSourceColumns&&); MSSourceColumns& operator=(const MSSourceColumns&); };
class MSPointing : public ::lax::Any { public: using ::lax::Any::Any; MSPointing(const ::lax::Any&); MSPointing(::lax::Any&&); template <class T> MSPointing& operator=(T&&); MSPointing(); MSPointing(const MSPointing&); MSPointing(MSPointing&&); MSPointing& operator=(const MSPointing&); };
class ScalarMeasColumnA : public ::lax::Any { public: using ::lax::Any::Any; ScalarMeasColumnA(const ::lax::Any&); ScalarMeasColumnA(::lax::Any&&); template <class T> ScalarMeasColumnA& operator=(T&&); ScalarMeasColumnA(); ScalarMeasColumnA(const ScalarMeasColumnA&); ScalarMeasColumnA(ScalarMeasColumnA&&); ScalarMeasColumnA& operator=(const ScalarMeasColumnA&); };
class MSDopplerUtil : public ::lax::Any { public: using ::lax::Any::Any; MSDopplerUtil(const ::lax::Any&); MSDopplerUtil(::lax::Any&&); template <class T> MSDopplerUtil& operator=(T&&); MSDopplerUtil(); MSDopplerUtil(const MSDopplerUtil&); MSDopplerUtil(MSDopplerUtil&&); MSDopplerUtil& operator=(const MSDopplerUtil&); };
class MSPointingColumns : public ::lax::Any { public: using ::lax::Any::Any; MSPointingColumns(const ::lax::Any&); MSPointingColumns(::lax::Any&&); template <class T> MSPointingColumns& operator=(T&&); MSPointingColumns(); MSPointingColumns(const MSPointingColumns&); MSPointingColumns(MSPointingColumns&&); MSPointingColumns& operator=(const MSPointingColumns&); };
class MSFeedColumns : public ::lax::Any { public: using ::lax::Any::Any; MSFeedColumns(const ::lax::Any&); MSFeedColumns(::lax::Any&&); template <class T> MSFeedColumns& operator=(T&&); MSFeedColumns(); MSFeedColumns(const MSFeedColumns&); MSFeedColumns(MSFeedColumns&&); MSFeedColumns& operator=(const MSFeedColumns&); };
class MSObservationColumns : public ::lax::Any { public: using ::lax::Any::Any; MSObservationColumns(const ::lax::Any&); MSObservationColumns(::lax::Any&&); template <class T> MSObservationColumns& operator=(T&&); MSObservationColumns(); MSObservationColumns(const MSObservationColumns&); MSObservationColumns(MSObservationColumns&&); MSObservationColumns& operator=(const MSObservationColumns&); };
class MSPolColumns : public ::lax::Any { public: using ::lax::Any::Any; MSPolColumns(const ::lax::Any&); MSPolColumns(::lax::Any&&); template <class T> MSPolColumns& operator=(T&&); MSPolColumns(); MSPolColumns(const MSPolColumns&); MSPolColumns(MSPolColumns&&); MSPolColumns& operator=(const MSPolColumns&); };
class MSSourceIndex : public ::lax::Any { public: using ::lax::Any::Any; MSSourceIndex(const ::lax::Any&); MSSourceIndex(::lax::Any&&); template <class T> MSSourceIndex& operator=(T&&); MSSourceIndex(); MSSourceIndex(const MSSourceIndex&); MSSourceIndex(MSSourceIndex&&); MSSourceIndex& operator=(const MSSourceIndex&); };
class MSState : public ::lax::Any { public: using ::lax::Any::Any; MSState(const ::lax::Any&); MSState(::lax::Any&&); template <class T> MSState& operator=(T&&); MSState(); MSState(const MSState&); MSState(MSState&&); MSState& operator=(const MSState&); };
class MSHistory : public ::lax::Any { public: using ::lax::Any::Any; MSHistory(const ::lax::Any&); MSHistory(::lax::Any&&); template <class T> MSHistory& operator=(T&&); MSHistory(); MSHistory(const MSHistory&); MSHistory(MSHistory&&); MSHistory& operator=(const MSHistory&); };
class MSProcessor : public ::lax::Any { public: using ::lax::Any::Any; MSProcessor(const ::lax::Any&); MSProcessor(::lax::Any&&); template <class T> MSProcessor& operator=(T&&); MSProcessor(); MSProcessor(const MSProcessor&); MSProcessor(MSProcessor&&); MSProcessor& operator=(const MSProcessor&); };
class TableLog : public ::lax::Any { public: using ::lax::Any::Any; TableLog(const ::lax::Any&); TableLog(::lax::Any&&); template <class T> TableLog& operator=(T&&); TableLog(); TableLog(const TableLog&); TableLog(TableLog&&); TableLog& operator=(const TableLog&); };
class TableMeasRefDesc : public ::lax::Any { public: using ::lax::Any::Any; TableMeasRefDesc(const ::lax::Any&); TableMeasRefDesc(::lax::Any&&); template <class T> TableMeasRefDesc& operator=(T&&); TableMeasRefDesc(); TableMeasRefDesc(const TableMeasRefDesc&); TableMeasRefDesc(TableMeasRefDesc&&); TableMeasRefDesc& operator=(const TableMeasRefDesc&); };
class TableMeasValueDesc : public ::lax::Any { public: using ::lax::Any::Any; TableMeasValueDesc(const ::lax::Any&); TableMeasValueDesc(::lax::Any&&); template <class T> TableMeasValueDesc& operator=(T&&); TableMeasValueDesc(); TableMeasValueDesc(const TableMeasValueDesc&); TableMeasValueDesc(TableMeasValueDesc&&); TableMeasValueDesc& operator=(const TableMeasValueDesc&); };
class ExprNodeSet : public ::lax::Any { public: using ::lax::Any::Any; ExprNodeSet(const ::lax::Any&); ExprNodeSet(::lax::Any&&); template <class T> ExprNodeSet& operator=(T&&); ExprNodeSet(); ExprNodeSet(const ExprNodeSet&); ExprNodeSet(ExprNodeSet&&); ExprNodeSet& operator=(const ExprNodeSet&); };
class TableExprNodeSet : public ::lax::Any { public: using ::lax::Any::Any; TableExprNodeSet(const ::lax::Any&); TableExprNodeSet(::lax::Any&&); template <class T> TableExprNodeSet& operator=(T&&); TableExprNodeSet(); TableExprNodeSet(const TableExprNodeSet&); TableExprNodeSet(TableExprNodeSet&&); TableExprNodeSet& operator=(const TableExprNodeSet&); };
class TableExprNodeSetElem : public ::lax::Any { public: using ::lax::Any::Any; TableExprNodeSetElem(const ::lax::Any&); TableExprNodeSetElem(::lax::Any&&); template <class T> TableExprNodeSetElem& operator=(T&&); TableExprNodeSetElem(); TableExprNodeSetElem(const TableExprNodeSetElem&); TableExprNodeSetElem(TableExprNodeSetElem&&); TableExprNodeSetElem& operator=(const TableExprNodeSetElem&); };
class TableExprId : public ::lax::Any { public: using ::lax::Any::Any; TableExprId(const ::lax::Any&); TableExprId(::lax::Any&&); template <class T> TableExprId& operator=(T&&); TableExprId(); TableExprId(const TableExprId&); TableExprId(TableExprId&&); TableExprId& operator=(const TableExprId&); };
class BaseSlice : public ::lax::Any { public: using ::lax::Any::Any; BaseSlice(const ::lax::Any&); BaseSlice(::lax::Any&&); template <class T> BaseSlice& operator=(T&&); BaseSlice(); BaseSlice(const BaseSlice&); BaseSlice(BaseSlice&&); BaseSlice& operator=(const BaseSlice&); };
}

namespace aocommon {
class BandData : public ::lax::Any { public: using ::lax::Any::Any; BandData(const ::lax::Any&); BandData(::lax::Any&&); template <class T> BandData& operator=(T&&); BandData(); BandData(const BandData&); BandData(BandData&&); BandData& operator=(const BandData&); };
class ChannelInfo : public ::lax::Any { public: using ::lax::Any::Any; ChannelInfo(const ::lax::Any&); ChannelInfo(::lax::Any&&); template <class T> ChannelInfo& operator=(T&&); ChannelInfo(); ChannelInfo(const ChannelInfo&); ChannelInfo(ChannelInfo&&); ChannelInfo& operator=(const ChannelInfo&); };
class CoordinateSystem : public ::lax::Any { public: using ::lax::Any::Any; CoordinateSystem(const ::lax::Any&); CoordinateSystem(::lax::Any&&); template <class T> CoordinateSystem& operator=(T&&); CoordinateSystem(); CoordinateSystem(const CoordinateSystem&); CoordinateSystem(CoordinateSystem&&); CoordinateSystem& operator=(const CoordinateSystem&); };
class FitsBase : public ::lax::Any { public: using ::lax::Any::Any; FitsBase(const ::lax::Any&); FitsBase(::lax::Any&&); template <class T> FitsBase& operator=(T&&); FitsBase(); FitsBase(const FitsBase&); FitsBase(FitsBase&&); FitsBase& operator=(const FitsBase&); };
class FitsReader : public ::lax::Any { public: using ::lax::Any::Any; FitsReader(const ::lax::Any&); FitsReader(::lax::Any&&); template <class T> FitsReader& operator=(T&&); FitsReader(); FitsReader(const FitsReader&); FitsReader(FitsReader&&); FitsReader& operator=(const FitsReader&); };
class FitsWriter : public ::lax::Any { public: using ::lax::Any::Any; FitsWriter(const ::lax::Any&); FitsWriter(::lax::Any&&); template <class T> FitsWriter& operator=(T&&); FitsWriter(); FitsWriter(const FitsWriter&); FitsWriter(FitsWriter&&); FitsWriter& operator=(const FitsWriter&); };
class Image : public ::lax::Any { public: using ::lax::Any::Any; Image(const ::lax::Any&); Image(::lax::Any&&); template <class T> Image& operator=(T&&); Image(); Image(const Image&); Image(Image&&); Image& operator=(const Image&); };
class ImageCoordinates : public ::lax::Any { public: using ::lax::Any::Any; ImageCoordinates(const ::lax::Any&); ImageCoordinates(::lax::Any&&); template <class T> ImageCoordinates& operator=(T&&); ImageCoordinates(); ImageCoordinates(const ImageCoordinates&); ImageCoordinates(ImageCoordinates&&); ImageCoordinates& operator=(const ImageCoordinates&); };
class MultiBandData : public ::lax::Any { public: using ::lax::Any::Any; MultiBandData(const ::lax::Any&); MultiBandData(::lax::Any&&); template <class T> MultiBandData& operator=(T&&); MultiBandData(); MultiBandData(const MultiBandData&); MultiBandData(MultiBandData&&); MultiBandData& operator=(const MultiBandData&); };
class Polarization : public ::lax::Any { public: using ::lax::Any::Any; Polarization(const ::lax::Any&); Polarization(::lax::Any&&); template <class T> Polarization& operator=(T&&); Polarization(); Polarization(const Polarization&); Polarization(Polarization&&); Polarization& operator=(const Polarization&); };
class ThreadPool : public ::lax::Any { public: using ::lax::Any::Any; ThreadPool(const ::lax::Any&); ThreadPool(::lax::Any&&); template <class T> ThreadPool& operator=(T&&); ThreadPool(); ThreadPool(const ThreadPool&); ThreadPool(ThreadPool&&); ThreadPool& operator=(const ThreadPool&); };
class HMC4x4 : public ::lax::Any { public: using ::lax::Any::Any; HMC4x4(const ::lax::Any&); HMC4x4(::lax::Any&&); template <class T> HMC4x4& operator=(T&&); HMC4x4(); HMC4x4(const HMC4x4&); HMC4x4(HMC4x4&&); HMC4x4& operator=(const HMC4x4&); };
class Vector4 : public ::lax::Any { public: using ::lax::Any::Any; Vector4(const ::lax::Any&); Vector4(::lax::Any&&); template <class T> Vector4& operator=(T&&); Vector4(); Vector4(const Vector4&); Vector4(Vector4&&); Vector4& operator=(const Vector4&); };
class StaticForBase : public ::lax::Any { public: using ::lax::Any::Any; StaticForBase(const ::lax::Any&); StaticForBase(::lax::Any&&); template <class T> StaticForBase& operator=(T&&); StaticForBase(); StaticForBase(const StaticForBase&); StaticForBase(StaticForBase&&); StaticForBase& operator=(const StaticForBase&); };
class RecursiveFor : public ::lax::Any { public: using ::lax::Any::Any; RecursiveFor(const ::lax::Any&); RecursiveFor(::lax::Any&&); template <class T> RecursiveFor& operator=(T&&); RecursiveFor(); RecursiveFor(const RecursiveFor&); RecursiveFor(RecursiveFor&&); RecursiveFor& operator=(const RecursiveFor&); };
class Barrier : public ::lax::Any { public: using ::lax::Any::Any; Barrier(const ::lax::Any&); Barrier(::lax::Any&&); template <class T> Barrier& operator=(T&&); Barrier(); Barrier(const Barrier&); Barrier(Barrier&&); Barrier& operator=(const Barrier&); };
class Range : public ::lax::Any { public: using ::lax::Any::Any; Range(const ::lax::Any&); Range(::lax::Any&&); template <class T> Range& operator=(T&&); Range(); Range(const Range&); Range(Range&&); Range& operator=(const Range&); };
class HMatrix4x4 : public ::lax::Any { public: using ::lax::Any::Any; HMatrix4x4(const ::lax::Any&); HMatrix4x4(::lax::Any&&); template <class T> HMatrix4x4& operator=(T&&); HMatrix4x4(); HMatrix4x4(const HMatrix4x4&); HMatrix4x4(HMatrix4x4&&); HMatrix4x4& operator=(const HMatrix4x4&); };
}

namespace everybeam {
class ATermSettings : public ::lax::Any { public: using ::lax::Any::Any; ATermSettings(const ::lax::Any&); ATermSettings(::lax::Any&&); template <class T> ATermSettings& operator=(T&&); ATermSettings(); ATermSettings(const ATermSettings&); ATermSettings(ATermSettings&&); ATermSettings& operator=(const ATermSettings&); };
class StationCoordinateSystem : public ::lax::Any { public: using ::lax::Any::Any; StationCoordinateSystem(const ::lax::Any&); StationCoordinateSystem(::lax::Any&&); template <class T> StationCoordinateSystem& operator=(T&&); StationCoordinateSystem(); StationCoordinateSystem(const StationCoordinateSystem&); StationCoordinateSystem(StationCoordinateSystem&&); StationCoordinateSystem& operator=(const StationCoordinateSystem&); };
class StationNode : public ::lax::Any { public: using ::lax::Any::Any; StationNode(const ::lax::Any&); StationNode(::lax::Any&&); template <class T> StationNode& operator=(T&&); StationNode(); StationNode(const StationNode&); StationNode(StationNode&&); StationNode& operator=(const StationNode&); };
class BeamNormalisationModeStub : public ::lax::Any { public: using ::lax::Any::Any; BeamNormalisationModeStub(const ::lax::Any&); BeamNormalisationModeStub(::lax::Any&&); template <class T> BeamNormalisationModeStub& operator=(T&&); BeamNormalisationModeStub(); BeamNormalisationModeStub(const BeamNormalisationModeStub&); BeamNormalisationModeStub(BeamNormalisationModeStub&&); BeamNormalisationModeStub& operator=(const BeamNormalisationModeStub&); };
}

namespace everybeam {
namespace aterms {
class ATermBase : public ::lax::Any { public: using ::lax::Any::Any; ATermBase(const ::lax::Any&); ATermBase(::lax::Any&&); template <class T> ATermBase& operator=(T&&); ATermBase(); ATermBase(const ATermBase&); ATermBase(ATermBase&&); ATermBase& operator=(const ATermBase&); };
class ATermConfig : public ::lax::Any { public: using ::lax::Any::Any; ATermConfig(const ::lax::Any&); ATermConfig(::lax::Any&&); template <class T> ATermConfig& operator=(T&&); ATermConfig(); ATermConfig(const ATermConfig&); ATermConfig(ATermConfig&&); ATermConfig& operator=(const ATermConfig&); };
class ParsetProvider : public ::lax::Any { public: using ::lax::Any::Any; ParsetProvider(const ::lax::Any&); ParsetProvider(::lax::Any&&); template <class T> ParsetProvider& operator=(T&&); ParsetProvider(); ParsetProvider(const ParsetProvider&); ParsetProvider(ParsetProvider&&); ParsetProvider& operator=(const ParsetProvider&); };
}}

namespace everybeam {
namespace pointresponse {
class PointResponse : public ::lax::Any { public: using ::lax::Any::Any; PointResponse(const ::lax::Any&); PointResponse(::lax::Any&&); template <class T> PointResponse& operator=(T&&); PointResponse(); PointResponse(const PointResponse&); PointResponse(PointResponse&&); PointResponse& operator=(const PointResponse&); };
}}

namespace everybeam {
namespace telescope {
class PhasedArray : public ::lax::Any { public: using ::lax::Any::Any; PhasedArray(const ::lax::Any&); PhasedArray(::lax::Any&&); template <class T> PhasedArray& operator=(T&&); PhasedArray(); PhasedArray(const PhasedArray&); PhasedArray(PhasedArray&&); PhasedArray& operator=(const PhasedArray&); };
class Telescope : public ::lax::Any { public: using ::lax::Any::Any; Telescope(const ::lax::Any&); Telescope(::lax::Any&&); template <class T> Telescope& operator=(T&&); Telescope(); Telescope(const Telescope&); Telescope(Telescope&&); Telescope& operator=(const Telescope&); };
}}

namespace everybeam {
namespace coords {
class CoordinateSystem : public ::lax::Any { public: using ::lax::Any::Any; CoordinateSystem(const ::lax::Any&); CoordinateSystem(::lax::Any&&); template <class T> CoordinateSystem& operator=(T&&); CoordinateSystem(); CoordinateSystem(const CoordinateSystem&); CoordinateSystem(CoordinateSystem&&); CoordinateSystem& operator=(const CoordinateSystem&); };
class ItrfConverter : public ::lax::Any { public: using ::lax::Any::Any; ItrfConverter(const ::lax::Any&); ItrfConverter(::lax::Any&&); template <class T> ItrfConverter& operator=(T&&); ItrfConverter(); ItrfConverter(const ItrfConverter&); ItrfConverter(ItrfConverter&&); ItrfConverter& operator=(const ItrfConverter&); };
class ITRFConverter : public ::lax::Any { public: using ::lax::Any::Any; ITRFConverter(const ::lax::Any&); ITRFConverter(::lax::Any&&); template <class T> ITRFConverter& operator=(T&&); ITRFConverter(); ITRFConverter(const ITRFConverter&); ITRFConverter(ITRFConverter&&); ITRFConverter& operator=(const ITRFConverter&); };
}}

namespace aoflagger {
class AOFlagger : public ::lax::Any { public: using ::lax::Any::Any; AOFlagger(const ::lax::Any&); AOFlagger(::lax::Any&&); template <class T> AOFlagger& operator=(T&&); AOFlagger(); AOFlagger(const AOFlagger&); AOFlagger(AOFlagger&&); AOFlagger& operator=(const AOFlagger&); };
class FlagMask : public ::lax::Any { public: using ::lax::Any::Any; FlagMask(const ::lax::Any&); FlagMask(::lax::Any&&); template <class T> FlagMask& operator=(T&&); FlagMask(); FlagMask(const FlagMask&); FlagMask(FlagMask&&); FlagMask& operator=(const FlagMask&); };
class ImageSet : public ::lax::Any { public: using ::lax::Any::Any; ImageSet(const ::lax::Any&); ImageSet(::lax::Any&&); template <class T> ImageSet& operator=(T&&); ImageSet(); ImageSet(const ImageSet&); ImageSet(ImageSet&&); ImageSet& operator=(const ImageSet&); };
class QualityStatistics : public ::lax::Any { public: using ::lax::Any::Any; QualityStatistics(const ::lax::Any&); QualityStatistics(::lax::Any&&); template <class T> QualityStatistics& operator=(T&&); QualityStatistics(); QualityStatistics(const QualityStatistics&); QualityStatistics(QualityStatistics&&); QualityStatistics& operator=(const QualityStatistics&); };
class Strategy : public ::lax::Any { public: using ::lax::Any::Any; Strategy(const ::lax::Any&); Strategy(::lax::Any&&); template <class T> Strategy& operator=(T&&); Strategy(); Strategy(const Strategy&); Strategy(Strategy&&); Strategy& operator=(const Strategy&); };
}

namespace idg {
namespace api {
class BufferSet : public ::lax::Any { public: using ::lax::Any::Any; BufferSet(const ::lax::Any&); BufferSet(::lax::Any&&); template <class T> BufferSet& operator=(T&&); BufferSet(); BufferSet(const BufferSet&); BufferSet(BufferSet&&); BufferSet& operator=(const BufferSet&); };
class BulkDegridder : public ::lax::Any { public: using ::lax::Any::Any; BulkDegridder(const ::lax::Any&); BulkDegridder(::lax::Any&&); template <class T> BulkDegridder& operator=(T&&); BulkDegridder(); BulkDegridder(const BulkDegridder&); BulkDegridder(BulkDegridder&&); BulkDegridder& operator=(const BulkDegridder&); };
class GridderBuffer : public ::lax::Any { public: using ::lax::Any::Any; GridderBuffer(const ::lax::Any&); GridderBuffer(::lax::Any&&); template <class T> GridderBuffer& operator=(T&&); GridderBuffer(); GridderBuffer(const GridderBuffer&); GridderBuffer(GridderBuffer&&); GridderBuffer& operator=(const GridderBuffer&); };
class options_type : public ::lax::Any { public: using ::lax::Any::Any; options_type(const ::lax::Any&); options_type(::lax::Any&&); template <class T> options_type& operator=(T&&); options_type(); options_type(const options_type&); options_type(options_type&&); options_type& operator=(const options_type&); };
class DegridderBuffer : public ::lax::Any { public: using ::lax::Any::Any; DegridderBuffer(const ::lax::Any&); DegridderBuffer(::lax::Any&&); template <class T> DegridderBuffer& operator=(T&&); DegridderBuffer(); DegridderBuffer(const DegridderBuffer&); DegridderBuffer(DegridderBuffer&&); DegridderBuffer& operator=(const DegridderBuffer&); };
}}

namespace predict {
class BeamResponsePlan : public ::lax::Any { public: using ::lax::Any::Any; BeamResponsePlan(const ::lax::Any&); BeamResponsePlan(::lax::Any&&); template <class T> BeamResponsePlan& operator=(T&&); BeamResponsePlan(); BeamResponsePlan(const BeamResponsePlan&); BeamResponsePlan(BeamResponsePlan&&); BeamResponsePlan& operator=(const BeamResponsePlan&); };
class Direction : public ::lax::Any { public: using ::lax::Any::Any; Direction(const ::lax::Any&); Direction(::lax::Any&&); template <class T> Direction& operator=(T&&); Direction(); Direction(const Direction&); Direction(Direction&&); Direction& operator=(const Direction&); };
class GaussianSourceCollection : public ::lax::Any { public: using ::lax::Any::Any; GaussianSourceCollection(const ::lax::Any&); GaussianSourceCollection(::lax::Any&&); template <class T> GaussianSourceCollection& operator=(T&&); GaussianSourceCollection(); GaussianSourceCollection(const GaussianSourceCollection&); GaussianSourceCollection(GaussianSourceCollection&&); GaussianSourceCollection& operator=(const GaussianSourceCollection&); };
class GaussianSource : public ::lax::Any { public: using ::lax::Any::Any; GaussianSource(const ::lax::Any&); GaussianSource(::lax::Any&&); template <class T> GaussianSource& operator=(T&&); GaussianSource(); GaussianSource(const GaussianSource&); GaussianSource(GaussianSource&&); GaussianSource& operator=(const GaussianSource&); };
class PointSourceCollection : public ::lax::Any { public: using ::lax::Any::Any; PointSourceCollection(const ::lax::Any&); PointSourceCollection(::lax::Any&&); template <class T> PointSourceCollection& operator=(T&&); PointSourceCollection(); PointSourceCollection(const PointSourceCollection&); PointSourceCollection(PointSourceCollection&&); PointSourceCollection& operator=(const PointSourceCollection&); };
class PointSource : public ::lax::Any { public: using ::lax::Any::Any; PointSource(const ::lax::Any&); PointSource(::lax::Any&&); template <class T> PointSource& operator=(T&&); PointSource(); PointSource(const PointSource&); PointSource(PointSource&&); PointSource& operator=(const PointSource&); };
class Predict : public ::lax::Any { public: using ::lax::Any::Any; Predict(const ::lax::Any&); Predict(::lax::Any&&); template <class T> Predict& operator=(T&&); Predict(); Predict(const Predict&); Predict(Predict&&); Predict& operator=(const Predict&); };
class PredictPlan : public ::lax::Any { public: using ::lax::Any::Any; PredictPlan(const ::lax::Any&); PredictPlan(::lax::Any&&); template <class T> PredictPlan& operator=(T&&); PredictPlan(); PredictPlan(const PredictPlan&); PredictPlan(PredictPlan&&); PredictPlan& operator=(const PredictPlan&); };
class PredictPlanExecCPU : public ::lax::Any { public: using ::lax::Any::Any; PredictPlanExecCPU(const ::lax::Any&); PredictPlanExecCPU(::lax::Any&&); template <class T> PredictPlanExecCPU& operator=(T&&); PredictPlanExecCPU(); PredictPlanExecCPU(const PredictPlanExecCPU&); PredictPlanExecCPU(PredictPlanExecCPU&&); PredictPlanExecCPU& operator=(const PredictPlanExecCPU&); };
class Spectrum : public ::lax::Any { public: using ::lax::Any::Any; Spectrum(const ::lax::Any&); Spectrum(::lax::Any&&); template <class T> Spectrum& operator=(T&&); Spectrum(); Spectrum(const Spectrum&); Spectrum(Spectrum&&); Spectrum& operator=(const Spectrum&); };
class Stokes : public ::lax::Any { public: using ::lax::Any::Any; Stokes(const ::lax::Any&); Stokes(::lax::Any&&); template <class T> Stokes& operator=(T&&); Stokes(); Stokes(const Stokes&); Stokes(Stokes&&); Stokes& operator=(const Stokes&); };
class BeamResponse : public ::lax::Any { public: using ::lax::Any::Any; BeamResponse(const ::lax::Any&); BeamResponse(::lax::Any&&); template <class T> BeamResponse& operator=(T&&); BeamResponse(); BeamResponse(const BeamResponse&); BeamResponse(BeamResponse&&); BeamResponse& operator=(const BeamResponse&); };
}

namespace pybind11 {
class arg : public ::lax::Any { public: using ::lax::Any::Any; arg(const ::lax::Any&); arg(::lax::Any&&); template <class T> arg& operator=(T&&); arg(); arg(const arg&); arg(arg&&); arg& operator=(const arg&); };
class array : public ::lax::Any { public: using ::lax::Any::Any; array(const ::lax::Any&); array(::lax::Any&&); template <class T> array& operator=(T&&); array(); array(const array&); array(array&&); array& operator=(const array&); };
class buffer_info : public ::lax::Any { public: using ::lax::Any::Any; buffer_info(const ::lax::Any&); buffer_info(::lax::Any&&); template <class T> buffer_info& operator=(T&&); buffer_info(); buffer_info(const buffer_info&); buffer_info(buffer_info&&); buffer_info& operator=(const buffer_info&); };
class buffer_protocol : public ::lax::Any { public: using ::lax::Any::Any; buffer_protocol(const ::lax::Any&); buffer_protocol(::lax::Any&&); template <class T> buffer_protocol& operator=(T&&); buffer_protocol(); buffer_protocol(const buffer_protocol&); buffer_protocol(buffer_protocol&&); buffer_protocol& operator=(const buffer_protocol&); };
class dict : public ::lax::Any { public: using ::lax::Any::Any; dict(const ::lax::Any&); dict(::lax::Any&&); template <class T> dict& operator=(T&&); dict(); dict(const dict&); dict(dict&&); dict& operator=(const dict&); };
class gil_scoped_release : public ::lax::Any { public: using ::lax::Any::Any; gil_scoped_release(const ::lax::Any&); gil_scoped_release(::lax::Any&&); template <class T> gil_scoped_release& operator=(T&&); gil_scoped_release(); gil_scoped_release(const gil_scoped_release&); gil_scoped_release(gil_scoped_release&&); gil_scoped_release& operator=(const gil_scoped_release&); };
class gil_scoped_acquire : public ::lax::Any { public: using ::lax::Any::Any; gil_scoped_acquire(const ::lax::Any&); gil_scoped_acquire(::lax::Any&&); template <class T> gil_scoped_acquire& operator=(T&&); gil_scoped_acquire(); gil_scoped_acquire(const gil_scoped_acquire&); gil_scoped_acquire(gil_scoped_acquire&&); gil_scoped_acquire& operator=(const gil_scoped_acquire&); };
class handle : public ::lax::Any { public: using ::lax::Any::Any; handle(const ::lax::Any&); handle(::lax::Any&&); template <class T> handle& operator=(T&&); handle(); handle(const handle&); handle(handle&&); handle& operator=(const handle&); };
class list : public ::lax::Any { public: using ::lax::Any::Any; list(const ::lax::Any&); list(::lax::Any&&); template <class T> list& operator=(T&&); list(); list(const list&); list(list&&); list& operator=(const list&); };
class module : public ::lax::Any { public: using ::lax::Any::Any; module(const ::lax::Any&); module(::lax::Any&&); template <class T> module& operator=(T&&); module(); module(const module&); module(module&&); module& operator=(const module&); };
class module_local : public ::lax::Any { public: using ::lax::Any::Any; module_local(const ::lax::Any&); module_local(::lax::Any&&); template <class T> module_local& operator=(T&&); module_local(); module_local(const module_local&); module_local(module_local&&); module_local& operator=(const module_local&); };
class object : public ::lax::Any { public: using ::lax::Any::Any; object(const ::lax::Any&); object(::lax::Any&&); template <class T> object& operator=(T&&); object(); object(const object&); object(object&&); object& operator=(const object&); };
class str : public ::lax::Any { public: using ::lax::Any::Any; str(const ::lax::Any&); str(::lax::Any&&); template <class T> str& operator=(T&&); str(); str(const str&); str(str&&); str& operator=(const str&); };
class function : public ::lax::Any { public: using ::lax::Any::Any; function(const ::lax::Any&); function(::lax::Any&&); template <class T> function& operator=(T&&); function(); function(const function&); function(function&&); function& operator=(const function&); };
class buffer : public ::lax::Any { public: using ::lax::Any::Any; buffer(const ::lax::Any&); buffer(::lax::Any&&); template <class T> buffer& operator=(T&&); buffer(); buffer(const buffer&); buffer(buffer&&); buffer& operator=(const buffer&); };
class tuple : public ::lax::Any { public: using ::lax::Any::Any; tuple(const ::lax::Any&); tuple(::lax::Any&&); template <class T> tuple& operator=(T&&); tuple(); tuple(const tuple&); tuple(tuple&&); tuple& operator=(const tuple&); };
class bytes : public ::lax::Any { public: using ::lax::Any::Any; bytes(const ::lax::Any&); bytes(::lax::Any&&); template <class T> bytes& operator=(T&&); bytes(); bytes(const bytes&); bytes(bytes&&); bytes& operator=(const bytes&); };
class scoped_ostream_redirect : public ::lax::Any { public: using ::lax::Any::Any; scoped_ostream_redirect(const ::lax::Any&); scoped_ostream_redirect(::lax::Any&&); template <class T> scoped_ostream_redirect& operator=(T&&); scoped_ostream_redirect(); scoped_ostream_redirect(const scoped_ostream_redirect&); scoped_ostream_redirect(scoped_ostream_redirect&&); scoped_ostream_redirect& operator=(const scoped_ostream_redirect&); };
class error_already_set : public ::lax::Any { public: using ::lax::Any::Any; error_already_set(const ::lax::Any&); error_already_set(::lax::Any&&); template <class T> error_already_set& operator=(T&&); error_already_set(); error_already_set(const error_already_set&); error_already_set(error_already_set&&); error_already_set& operator=(const error_already_set&); };
class keep_alive_base : public ::lax::Any { public: using ::lax::Any::Any; keep_alive_base(const ::lax::Any&); keep_alive_base(::lax::Any&&); template <class T> keep_alive_base& operator=(T&&); keep_alive_base(); keep_alive_base(const keep_alive_base&); keep_alive_base(keep_alive_base&&); keep_alive_base& operator=(const keep_alive_base&); };
class dtype : public ::lax::Any { public: using ::lax::Any::Any; dtype(const ::lax::Any&); dtype(::lax::Any&&); template <class T> dtype& operator=(T&&); dtype(); dtype(const dtype&); dtype(dtype&&); dtype& operator=(const dtype&); };
class iterable : public ::lax::Any { public: using ::lax::Any::Any; iterable(const ::lax::Any&); iterable(::lax::Any&&); template <class T> iterable& operator=(T&&); iterable(); iterable(const iterable&); iterable(iterable&&); iterable& operator=(const iterable&); };
}

namespace schaapcommon {
class RecursiveFor : public ::lax::Any { public: using ::lax::Any::Any; RecursiveFor(const ::lax::Any&); RecursiveFor(::lax::Any&&); template <class T> RecursiveFor& operator=(T&&); RecursiveFor(); RecursiveFor(const RecursiveFor&); RecursiveFor(RecursiveFor&&); RecursiveFor& operator=(const RecursiveFor&); };
class ThreadPool : public ::lax::Any { public: using ::lax::Any::Any; ThreadPool(const ::lax::Any&); ThreadPool(::lax::Any&&); template <class T> ThreadPool& operator=(T&&); ThreadPool(); ThreadPool(const ThreadPool&); ThreadPool(ThreadPool&&); ThreadPool& operator=(const ThreadPool&); };
}

namespace schaapcommon {
namespace facets {
class Coord : public ::lax::Any { public: using ::lax::Any::Any; Coord(const ::lax::Any&); Coord(::lax::Any&&); template <class T> Coord& operator=(T&&); Coord(); Coord(const Coord&); Coord(Coord&&); Coord& operator=(const Coord&); };
class DS9FacetFile : public ::lax::Any { public: using ::lax::Any::Any; DS9FacetFile(const ::lax::Any&); DS9FacetFile(::lax::Any&&); template <class T> DS9FacetFile& operator=(T&&); DS9FacetFile(); DS9FacetFile(const DS9FacetFile&); DS9FacetFile(DS9FacetFile&&); DS9FacetFile& operator=(const DS9FacetFile&); };
class Facet : public ::lax::Any { public: using ::lax::Any::Any; Facet(const ::lax::Any&); Facet(::lax::Any&&); template <class T> Facet& operator=(T&&); Facet(); Facet(const Facet&); Facet(Facet&&); Facet& operator=(const Facet&); };
class FacetImage : public ::lax::Any { public: using ::lax::Any::Any; FacetImage(const ::lax::Any&); FacetImage(::lax::Any&&); template <class T> FacetImage& operator=(T&&); FacetImage(); FacetImage(const FacetImage&); FacetImage(FacetImage&&); FacetImage& operator=(const FacetImage&); };
class PixelPosition : public ::lax::Any { public: using ::lax::Any::Any; PixelPosition(const ::lax::Any&); PixelPosition(::lax::Any&&); template <class T> PixelPosition& operator=(T&&); PixelPosition(); PixelPosition(const PixelPosition&); PixelPosition(PixelPosition&&); PixelPosition& operator=(const PixelPosition&); };
class BoundingBox : public ::lax::Any { public: using ::lax::Any::Any; BoundingBox(const ::lax::Any&); BoundingBox(::lax::Any&&); template <class T> BoundingBox& operator=(T&&); BoundingBox(); BoundingBox(const BoundingBox&); BoundingBox(BoundingBox&&); BoundingBox& operator=(const BoundingBox&); };
}}

namespace schaapcommon {
namespace h5parm {
class AxisInfo : public ::lax::Any { public: using ::lax::Any::Any; AxisInfo(const ::lax::Any&); AxisInfo(::lax::Any&&); template <class T> AxisInfo& operator=(T&&); AxisInfo(); AxisInfo(const AxisInfo&); AxisInfo(AxisInfo&&); AxisInfo& operator=(const AxisInfo&); };
class H5Parm : public ::lax::Any { public: using ::lax::Any::Any; H5Parm(const ::lax::Any&); H5Parm(::lax::Any&&); template <class T> H5Parm& operator=(T&&); H5Parm(); H5Parm(const H5Parm&); H5Parm(H5Parm&&); H5Parm& operator=(const H5Parm&); };
class SolTab : public ::lax::Any { public: using ::lax::Any::Any; SolTab(const ::lax::Any&); SolTab(::lax::Any&&); template <class T> SolTab& operator=(T&&); SolTab(); SolTab(const SolTab&); SolTab(SolTab&&); SolTab& operator=(const SolTab&); };
class TimesAndFrequencies : public ::lax::Any { public: using ::lax::Any::Any; TimesAndFrequencies(const ::lax::Any&); TimesAndFrequencies(::lax::Any&&); template <class T> TimesAndFrequencies& operator=(T&&); TimesAndFrequencies(); TimesAndFrequencies(const TimesAndFrequencies&); TimesAndFrequencies(TimesAndFrequencies&&); TimesAndFrequencies& operator=(const TimesAndFrequencies&); };
}}

namespace schaapcommon {
namespace reordering {
class ChannelRange : public ::lax::Any { public: using ::lax::Any::Any; ChannelRange(const ::lax::Any&); ChannelRange(::lax::Any&&); template <class T> ChannelRange& operator=(T&&); ChannelRange(); ChannelRange(const ChannelRange&); ChannelRange(ChannelRange&&); ChannelRange& operator=(const ChannelRange&); };
class FileWriter : public ::lax::Any { public: using ::lax::Any::Any; FileWriter(const ::lax::Any&); FileWriter(::lax::Any&&); template <class T> FileWriter& operator=(T&&); FileWriter(); FileWriter(const FileWriter&); FileWriter(FileWriter&&); FileWriter& operator=(const FileWriter&); };
class HandleData : public ::lax::Any { public: using ::lax::Any::Any; HandleData(const ::lax::Any&); HandleData(::lax::Any&&); template <class T> HandleData& operator=(T&&); HandleData(); HandleData(const HandleData&); HandleData(HandleData&&); HandleData& operator=(const HandleData&); };
class MSSelection : public ::lax::Any { public: using ::lax::Any::Any; MSSelection(const ::lax::Any&); MSSelection(::lax::Any&&); template <class T> MSSelection& operator=(T&&); MSSelection(); MSSelection(const MSSelection&); MSSelection(MSSelection&&); MSSelection& operator=(const MSSelection&); };
}}

namespace H5 {
class H5File : public ::lax::Any { public: using ::lax::Any::Any; H5File(const ::lax::Any&); H5File(::lax::Any&&); template <class T> H5File& operator=(T&&); H5File(); H5File(const H5File&); H5File(H5File&&); H5File& operator=(const H5File&); };
class Group : public ::lax::Any { public: using ::lax::Any::Any; Group(const ::lax::Any&); Group(::lax::Any&&); template <class T> Group& operator=(T&&); Group(); Group(const Group&); Group(Group&&); Group& operator=(const Group&); };
class DataSet : public ::lax::Any { public: using ::lax::Any::Any; DataSet(const ::lax::Any&); DataSet(::lax::Any&&); template <class T> DataSet& operator=(T&&); DataSet(); DataSet(const DataSet&); DataSet(DataSet&&); DataSet& operator=(const DataSet&); };
class DataSpace : public ::lax::Any { public: using ::lax::Any::Any; DataSpace(const ::lax::Any&); DataSpace(::lax::Any&&); template <class T> DataSpace& operator=(T&&); DataSpace(); DataSpace(const DataSpace&); DataSpace(DataSpace&&); DataSpace& operator=(const DataSpace&); };
class DataType : public ::lax::Any { public: using ::lax::Any::Any; DataType(const ::lax::Any&); DataType(::lax::Any&&); template <class T> DataType& operator=(T&&); DataType(); DataType(const DataType&); DataType(DataType&&); DataType& operator=(const DataType&); };
class CompType : public ::lax::Any { public: using ::lax::Any::Any; CompType(const ::lax::Any&); CompType(::lax::Any&&); template <class T> CompType& operator=(T&&); CompType(); CompType(const CompType&); CompType(CompType&&); CompType& operator=(const CompType&); };
class PredType : public ::lax::Any { public: using ::lax::Any::Any; PredType(const ::lax::Any&); PredType(::lax::Any&&); template <class T> PredType& operator=(T&&); PredType(); PredType(const PredType&); PredType(PredType&&); PredType& operator=(const PredType&); };
class StrType : public ::lax::Any { public: using ::lax::Any::Any; StrType(const ::lax::Any&); StrType(::lax::Any&&); template <class T> StrType& operator=(T&&); StrType(); StrType(const StrType&); StrType(StrType&&); StrType& operator=(const StrType&); };
class Attribute : public ::lax::Any { public: using ::lax::Any::Any; Attribute(const ::lax::Any&); Attribute(::lax::Any&&); template <class T> Attribute& operator=(T&&); Attribute(); Attribute(const Attribute&); Attribute(Attribute&&); Attribute& operator=(const Attribute&); };
class Exception : public ::lax::Any { public: using ::lax::Any::Any; Exception(const ::lax::Any&); Exception(::lax::Any&&); template <class T> Exception& operator=(T&&); Exception(); Exception(const Exception&); Exception(Exception&&); Exception& operator=(const Exception&); };
class DSetCreatPropList : public ::lax::Any { public: using ::lax::Any::Any; DSetCreatPropList(const ::lax::Any&); DSetCreatPropList(::lax::Any&&); template <class T> DSetCreatPropList& operator=(T&&); DSetCreatPropList(); DSetCreatPropList(const DSetCreatPropList&); DSetCreatPropList(DSetCreatPropList&&); DSetCreatPropList& operator=(const DSetCreatPropList&); };
class H5Object : public ::lax::Any { public: using ::lax::Any::Any; H5Object(const ::lax::Any&); H5Object(::lax::Any&&); template <class T> H5Object& operator=(T&&); H5Object(); H5Object(const H5Object&); H5Object(H5Object&&); H5Object& operator=(const H5Object&); };
class FloatType : public ::lax::Any { public: using ::lax::Any::Any; FloatType(const ::lax::Any&); FloatType(::lax::Any&&); template <class T> FloatType& operator=(T&&); FloatType(); FloatType(const FloatType&); FloatType(FloatType&&); FloatType& operator=(const FloatType&); };
class IntType : public ::lax::Any { public: using ::lax::Any::Any; IntType(const ::lax::Any&); IntType(::lax::Any&&); template <class T> IntType& operator=(T&&); IntType(); IntType(const IntType&); IntType(IntType&&); IntType& operator=(const IntType&); };
}

namespace ducc0 {
class Params : public ::lax::Any { public: using ::lax::Any::Any; Params(const ::lax::Any&); Params(::lax::Any&&); template <class T> Params& operator=(T&&); Params(); Params(const Params&); Params(Params&&); Params& operator=(const Params&); };
}

namespace cu {
class Context : public ::lax::Any { public: using ::lax::Any::Any; Context(const ::lax::Any&); Context(::lax::Any&&); template <class T> Context& operator=(T&&); Context(); Context(const Context&); Context(Context&&); Context& operator=(const Context&); };
class Device : public ::lax::Any { public: using ::lax::Any::Any; Device(const ::lax::Any&); Device(::lax::Any&&); template <class T> Device& operator=(T&&); Device(); Device(const Device&); Device(Device&&); Device& operator=(const Device&); };
class Stream : public ::lax::Any { public: using ::lax::Any::Any; Stream(const ::lax::Any&); Stream(::lax::Any&&); template <class T> Stream& operator=(T&&); Stream(); Stream(const Stream&); Stream(Stream&&); Stream& operator=(const Stream&); };
class Module : public ::lax::Any { public: using ::lax::Any::Any; Module(const ::lax::Any&); Module(::lax::Any&&); template <class T> Module& operator=(T&&); Module(); Module(const Module&); Module(Module&&); Module& operator=(const Module&); };
class DeviceMemory : public ::lax::Any { public: using ::lax::Any::Any; DeviceMemory(const ::lax::Any&); DeviceMemory(::lax::Any&&); template <class T> DeviceMemory& operator=(T&&); DeviceMemory(); DeviceMemory(const DeviceMemory&); DeviceMemory(DeviceMemory&&); DeviceMemory& operator=(const DeviceMemory&); };
class HostMemory : public ::lax::Any { public: using ::lax::Any::Any; HostMemory(const ::lax::Any&); HostMemory(::lax::Any&&); template <class T> HostMemory& operator=(T&&); HostMemory(); HostMemory(const HostMemory&); HostMemory(HostMemory&&); HostMemory& operator=(const HostMemory&); };
class Event : public ::lax::Any { public: using ::lax::Any::Any; Event(const ::lax::Any&); Event(::lax::Any&&); template <class T> Event& operator=(T&&); Event(); Event(const Event&); Event(Event&&); Event& operator=(const Event&); };
class Marker : public ::lax::Any { public: using ::lax::Any::Any; Marker(const ::lax::Any&); Marker(::lax::Any&&); template <class T> Marker& operator=(T&&); Marker(); Marker(const Marker&); Marker(Marker&&); Marker& operator=(const Marker&); };
}

namespace wsclean {
class WSClean : public ::lax::Any { public: using ::lax::Any::Any; WSClean(const ::lax::Any&); WSClean(::lax::Any&&); template <class T> WSClean& operator=(T&&); WSClean(); WSClean(const WSClean&); WSClean(WSClean&&); WSClean& operator=(const WSClean&); };
class Settings : public ::lax::Any { public: using ::lax::Any::Any; Settings(const ::lax::Any&); Settings(::lax::Any&&); template <class T> Settings& operator=(T&&); Settings(); Settings(const Settings&); Settings(Settings&&); Settings& operator=(const Settings&); };
class InMemoryMs : public ::lax::Any { public: using ::lax::Any::Any; InMemoryMs(const ::lax::Any&); InMemoryMs(::lax::Any&&); template <class T> InMemoryMs& operator=(T&&); InMemoryMs(); InMemoryMs(const InMemoryMs&); InMemoryMs(InMemoryMs&&); InMemoryMs& operator=(const InMemoryMs&); };
class InMemoryPart : public ::lax::Any { public: using ::lax::Any::Any; InMemoryPart(const ::lax::Any&); InMemoryPart(::lax::Any&&); template <class T> InMemoryPart& operator=(T&&); InMemoryPart(); InMemoryPart(const InMemoryPart&); InMemoryPart(InMemoryPart&&); InMemoryPart& operator=(const InMemoryPart&); };
class CommandLine : public ::lax::Any { public: using ::lax::Any::Any; CommandLine(const ::lax::Any&); CommandLine(::lax::Any&&); template <class T> CommandLine& operator=(T&&); CommandLine(); CommandLine(const CommandLine&); CommandLine(CommandLine&&); CommandLine& operator=(const CommandLine&); };
}

namespace casacore {
template <class T = ::lax::Any, class... R> class Array : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Array(const ::lax::Any&); Array(::lax::Any&&); template <class U> Array& operator=(U&&); Array& operator=(const T&); Array(); Array(const Array&); Array(Array&&); Array& operator=(const Array&); };
template <class T = ::lax::Any, class... R> class Cube : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Cube(const ::lax::Any&); Cube(::lax::Any&&); template <class U> Cube& operator=(U&&); Cube& operator=(const T&); Cube(); Cube(const Cube&); Cube(Cube&&); Cube& operator=(const Cube&); };
template <class T = ::lax::Any, class... R> class Matrix : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Matrix(const ::lax::Any&); Matrix(::lax::Any&&); template <class U> Matrix& operator=(U&&); Matrix& operator=(const T&); Matrix(); Matrix(const Matrix&); Matrix(Matrix&&); Matrix& operator=(const Matrix&); };
template <class T = ::lax::Any, class... R> class Vector : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Vector(const ::lax::Any&); Vector(::lax::Any&&); template <class U> Vector& operator=(U&&); Vector& operator=(const T&); Vector(); Vector(const Vector&); Vector(Vector&&); Vector& operator=(const Vector&); };
template <class T = ::lax::Any, class... R> class Block : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Block(const ::lax::Any&); Block(::lax::Any&&); template <class U> Block& operator=(U&&); Block& operator=(const T&); Block(); Block(const Block&); Block(Block&&); Block& operator=(const Block&); };
template <class T = ::lax::Any, class... R> class ArrayColumn : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ArrayColumn(const ::lax::Any&); ArrayColumn(::lax::Any&&); template <class U> ArrayColumn& operator=(U&&); ArrayColumn& operator=(const T&); ArrayColumn(); ArrayColumn(const ArrayColumn&); ArrayColumn(ArrayColumn&&); ArrayColumn& operator=(const ArrayColumn&); };
template <class T = ::lax::Any, class... R> class ScalarColumn : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ScalarColumn(const ::lax::Any&); ScalarColumn(::lax::Any&&); template <class U> ScalarColumn& operator=(U&&); ScalarColumn& operator=(const T&); ScalarColumn(); ScalarColumn(const ScalarColumn&); ScalarColumn(ScalarColumn&&); ScalarColumn& operator=(const ScalarColumn&); };
template <class T = ::lax::Any, class... R> class ROArrayColumn : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ROArrayColumn(const ::lax::Any&); ROArrayColumn(::lax::Any&&); template <class U> ROArrayColumn& operator=(U&&); ROArrayColumn& operator=(const T&); ROArrayColumn(); ROArrayColumn(const ROArrayColumn&); ROArrayColumn(ROArrayColumn&&); ROArrayColumn& operator=(const ROArrayColumn&); };
template <class T = ::lax::Any, class... R> class ROScalarColumn : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ROScalarColumn(const ::lax::Any&); ROScalarColumn(::lax::Any&&); template <class U> ROScalarColumn& operator=(U&&); ROScalarColumn& operator=(const T&); ROScalarColumn(); ROScalarColumn(const ROScalarColumn&); ROScalarColumn(ROScalarColumn&&); ROScalarColumn& operator=(const ROScalarColumn&); };
template <class T = ::lax::Any, class... R> class ArrayIterator : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ArrayIterator(const ::lax::Any&); ArrayIterator(::lax::Any&&); template <class U> ArrayIterator& operator=(U&&); ArrayIterator& operator=(const T&); ArrayIterator(); ArrayIterator(const ArrayIterator&); ArrayIterator(ArrayIterator&&); ArrayIterator& operator=(const ArrayIterator&); };
template <class T = ::lax::Any, class... R> class ReadOnlyArrayIterator : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ReadOnlyArrayIterator(const ::lax::Any&); ReadOnlyArrayIterator(::lax::Any&&); template <class U> ReadOnlyArrayIterator& operator=(U&&); ReadOnlyArrayIterator& operator=(const T&); ReadOnlyArrayIterator(); ReadOnlyArrayIterator(const ReadOnlyArrayIterator&); ReadOnlyArrayIterator(ReadOnlyArrayIterator&&); ReadOnlyArrayIterator& operator=(const ReadOnlyArrayIterator&); };
template <class T = ::lax::Any, class... R> class PtrBlock : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; PtrBlock(const ::lax::Any&); PtrBlock(::lax::Any&&); template <class U> PtrBlock& operator=(U&&); PtrBlock& operator=(const T&); PtrBlock(); PtrBlock(const PtrBlock&); PtrBlock(PtrBlock&&); PtrBlock& operator=(const PtrBlock&); };
template <class T = ::lax::Any, class... R> class ArrayColumnDesc : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ArrayColumnDesc(const ::lax::Any&); ArrayColumnDesc(::lax::Any&&); template <class U> ArrayColumnDesc& operator=(U&&); ArrayColumnDesc& operator=(const T&); ArrayColumnDesc(); ArrayColumnDesc(const ArrayColumnDesc&); ArrayColumnDesc(ArrayColumnDesc&&); ArrayColumnDesc& operator=(const ArrayColumnDesc&); };
template <class T = ::lax::Any, class... R> class ScalarColumnDesc : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ScalarColumnDesc(const ::lax::Any&); ScalarColumnDesc(::lax::Any&&); template <class U> ScalarColumnDesc& operator=(U&&); ScalarColumnDesc& operator=(const T&); ScalarColumnDesc(); ScalarColumnDesc(const ScalarColumnDesc&); ScalarColumnDesc(ScalarColumnDesc&&); ScalarColumnDesc& operator=(const ScalarColumnDesc&); };
template <class T = ::lax::Any, class... R> class Quantum : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Quantum(const ::lax::Any&); Quantum(::lax::Any&&); template <class U> Quantum& operator=(U&&); Quantum& operator=(const T&); Quantum(); Quantum(const Quantum&); Quantum(Quantum&&); Quantum& operator=(const Quantum&); };
template <class T = ::lax::Any, class... R> class RecordFieldPtr : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; RecordFieldPtr(const ::lax::Any&); RecordFieldPtr(::lax::Any&&); template <class U> RecordFieldPtr& operator=(U&&); RecordFieldPtr& operator=(const T&); RecordFieldPtr(); RecordFieldPtr(const RecordFieldPtr&); RecordFieldPtr(RecordFieldPtr&&); RecordFieldPtr& operator=(const RecordFieldPtr&); };
template <class T = ::lax::Any, class... R> class SumSqr : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; SumSqr(const ::lax::Any&); SumSqr(::lax::Any&&); template <class U> SumSqr& operator=(U&&); SumSqr& operator=(const T&); SumSqr(); SumSqr(const SumSqr&); SumSqr(SumSqr&&); SumSqr& operator=(const SumSqr&); };
template <class T = ::lax::Any, class... R> class TableMeasDesc : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; TableMeasDesc(const ::lax::Any&); TableMeasDesc(::lax::Any&&); template <class U> TableMeasDesc& operator=(U&&); TableMeasDesc& operator=(const T&); TableMeasDesc(); TableMeasDesc(const TableMeasDesc&); TableMeasDesc(TableMeasDesc&&); TableMeasDesc& operator=(const TableMeasDesc&); };
template <class T = ::lax::Any, class... R> class ScalarMeasColumn : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ScalarMeasColumn(const ::lax::Any&); ScalarMeasColumn(::lax::Any&&); template <class U> ScalarMeasColumn& operator=(U&&); ScalarMeasColumn& operator=(const T&); ScalarMeasColumn(); ScalarMeasColumn(const ScalarMeasColumn&); ScalarMeasColumn(ScalarMeasColumn&&); ScalarMeasColumn& operator=(const ScalarMeasColumn&); };
template <class T = ::lax::Any, class... R> class MaskedArray : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; MaskedArray(const ::lax::Any&); MaskedArray(::lax::Any&&); template <class U> MaskedArray& operator=(U&&); MaskedArray& operator=(const T&); MaskedArray(); MaskedArray(const MaskedArray&); MaskedArray(MaskedArray&&); MaskedArray& operator=(const MaskedArray&); };
template <class T = ::lax::Any, class... R> class MeasRef : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; MeasRef(const ::lax::Any&); MeasRef(::lax::Any&&); template <class U> MeasRef& operator=(U&&); MeasRef& operator=(const T&); MeasRef(); MeasRef(const MeasRef&); MeasRef(MeasRef&&); MeasRef& operator=(const MeasRef&); };
template <class T = ::lax::Any, class... R> class MeasConvert : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; MeasConvert(const ::lax::Any&); MeasConvert(::lax::Any&&); template <class U> MeasConvert& operator=(U&&); MeasConvert& operator=(const T&); MeasConvert(); MeasConvert(const MeasConvert&); MeasConvert(MeasConvert&&); MeasConvert& operator=(const MeasConvert&); };
template <class T = ::lax::Any, class... R> class Sequence : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Sequence(const ::lax::Any&); Sequence(::lax::Any&&); template <class U> Sequence& operator=(U&&); Sequence& operator=(const T&); Sequence(); Sequence(const Sequence&); Sequence(Sequence&&); Sequence& operator=(const Sequence&); };
template <class T = ::lax::Any, class... R> class ScalarRecordColumnDesc : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; ScalarRecordColumnDesc(const ::lax::Any&); ScalarRecordColumnDesc(::lax::Any&&); template <class U> ScalarRecordColumnDesc& operator=(U&&); ScalarRecordColumnDesc& operator=(const T&); ScalarRecordColumnDesc(); ScalarRecordColumnDesc(const ScalarRecordColumnDesc&); ScalarRecordColumnDesc(ScalarRecordColumnDesc&&); ScalarRecordColumnDesc& operator=(const ScalarRecordColumnDesc&); };
template <class T = ::lax::Any, class... R> class CountedPtr : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; CountedPtr(const ::lax::Any&); CountedPtr(::lax::Any&&); template <class U> CountedPtr& operator=(U&&); CountedPtr& operator=(const T&); CountedPtr(); CountedPtr(const CountedPtr&); CountedPtr(CountedPtr&&); CountedPtr& operator=(const CountedPtr&); };
template <class T = ::lax::Any, class... R> class FunctionParam : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; FunctionParam(const ::lax::Any&); FunctionParam(::lax::Any&&); template <class U> FunctionParam& operator=(U&&); FunctionParam& operator=(const T&); FunctionParam(); FunctionParam(const FunctionParam&); FunctionParam(FunctionParam&&); FunctionParam& operator=(const FunctionParam&); };
template <class T = ::lax::Any, class... R> class GenSortIndirect : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; GenSortIndirect(const ::lax::Any&); GenSortIndirect(::lax::Any&&); template <class U> GenSortIndirect& operator=(U&&); GenSortIndirect& operator=(const T&); GenSortIndirect(); GenSortIndirect(const GenSortIndirect&); GenSortIndirect(GenSortIndirect&&); GenSortIndirect& operator=(const GenSortIndirect&); };
}

namespace aocommon {
template <class T = ::lax::Any, class... R> class UVector : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; UVector(const ::lax::Any&); UVector(::lax::Any&&); template <class U> UVector& operator=(U&&); UVector& operator=(const T&); UVector(); UVector(const UVector&); UVector(UVector&&); UVector& operator=(const UVector&); };
template <class T = ::lax::Any, class... R> class Lane : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Lane(const ::lax::Any&); Lane(::lax::Any&&); template <class U> Lane& operator=(U&&); Lane& operator=(const T&); Lane(); Lane(const Lane&); Lane(Lane&&); Lane& operator=(const Lane&); };
template <class T = ::lax::Any, class... R> class Queue : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Queue(const ::lax::Any&); Queue(::lax::Any&&); template <class U> Queue& operator=(U&&); Queue& operator=(const T&); Queue(); Queue(const Queue&); Queue(Queue&&); Queue& operator=(const Queue&); };
template <class T = ::lax::Any, class... R> class OptionalNumber : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; OptionalNumber(const ::lax::Any&); OptionalNumber(::lax::Any&&); template <class U> OptionalNumber& operator=(U&&); OptionalNumber& operator=(const T&); OptionalNumber(); OptionalNumber(const OptionalNumber&); OptionalNumber(OptionalNumber&&); OptionalNumber& operator=(const OptionalNumber&); };
}

namespace pybind11 {
template <class T = ::lax::Any, class... R> class array_t : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; array_t(const ::lax::Any&); array_t(::lax::Any&&); template <class U> array_t& operator=(U&&); array_t& operator=(const T&); array_t(); array_t(const array_t&); array_t(array_t&&); array_t& operator=(const array_t&); };
}

namespace predict {
template <class T = ::lax::Any, class... R> class Buffer : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Buffer(const ::lax::Any&); Buffer(::lax::Any&&); template <class U> Buffer& operator=(U&&); Buffer& operator=(const T&); Buffer(); Buffer(const Buffer&); Buffer(Buffer&&); Buffer& operator=(const Buffer&); };
}

namespace casacore {
template <class K, class V> class SimpleOrderedMap : public ::lax::Any { public: using ::lax::Any::Any; };
template <class K, class V> class GenSortIndirect2 : public ::lax::Any { public: using ::lax::Any::Any; };
template <class K, class V> class Map : public ::lax::Any { public: using ::lax::Any::Any; };
}

namespace xt {
template <class T, std::size_t N, ::xt::layout_type L = ::xt::layout_type::row_major, class... R> class xtensor : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; xtensor(const ::lax::Any&); xtensor(::lax::Any&&); template <class U> xtensor& operator=(U&&);  xtensor(); xtensor(const xtensor&); xtensor(xtensor&&); xtensor& operator=(const xtensor&); };
}

namespace aocommon {
namespace xt {
template <class T, std::size_t N, ::xt::layout_type L = ::xt::layout_type::row_major, class... R> class Span : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; Span(const ::lax::Any&); Span(::lax::Any&&); template <class U> Span& operator=(U&&);  Span(); Span(const Span&); Span(Span&&); Span& operator=(const Span&); };
template <class T, std::size_t N, ::xt::layout_type L = ::xt::layout_type::row_major, class... R> class UTensor : public ::lax::Arr<T> { public: using ::lax::Arr<T>::Arr; UTensor(const ::lax::Any&); UTensor(::lax::Any&&); template <class U> UTensor& operator=(U&&);  UTensor(); UTensor(const UTensor&); UTensor(UTensor&&); UTensor& operator=(const UTensor&); };
}}

namespace casacore {
constexpr int True = 1;
constexpr int False = 1;
constexpr int TpBool = 1;
constexpr int TpComplex = 1;
constexpr int TpFloat = 1;
constexpr int TpTable = 1;
constexpr int TpInt = 1;
constexpr int TpDouble = 1;
constexpr int TpString = 1;
constexpr int TpArrayFloat = 1;
constexpr int TpDComplex = 1;
}

namespace aocommon {
}

namespace everybeam {
}

namespace casacore {
template <class... T, class... A> ::lax::Any isFinite(A&&...);
template <class... T, class... A> ::lax::Any max(A&&...);
template <class... T, class... A> ::lax::Any min(A&&...);
template <class... T, class... A> ::lax::Any msAntennaGramParseCommand(A&&...);
template <class... T, class... A> ::lax::Any near(A&&...);
template <class... T, class... A> ::lax::Any nearAbs(A&&...);
template <class... T, class... A> ::lax::Any objcopy(A&&...);
template <class... T, class... A> ::lax::Any product(A&&...);
template <class... T, class... A> ::lax::Any tableCommand(A&&...);
template <class... T, class... A> ::lax::Any transpose(A&&...);
template <class... T, class... A> ::lax::Any amplitude(A&&...);
template <class... T, class... A> ::lax::Any sum(A&&...);
template <class... T, class... A> ::lax::Any ntrue(A&&...);
template <class... T, class... A> ::lax::Any nfalse(A&&...);
template <class... T, class... A> ::lax::Any allEQ(A&&...);
template <class... T, class... A> ::lax::Any anyEQ(A&&...);
template <class... T, class... A> ::lax::Any allTrue(A&&...);
template <class... T, class... A> ::lax::Any anyTrue(A&&...);
template <class... T, class... A> ::lax::Any fillPhase(A&&...);
template <class... T, class... A> ::lax::Any abs(A&&...);
template <class... T, class... A> ::lax::Any real(A&&...);
template <class... T, class... A> ::lax::Any imag(A&&...);
template <class... T, class... A> ::lax::Any phase(A&&...);
template <class... T, class... A> ::lax::Any conj(A&&...);
template <class... T, class... A> ::lax::Any convertArray(A&&...);
template <class... T, class... A> ::lax::Any isNaN(A&&...);
template <class... T, class... A> ::lax::Any square(A&&...);
template <class... T, class... A> ::lax::Any mean(A&&...);
template <class... T, class... A> ::lax::Any median(A&&...);
template <class... T, class... A> ::lax::Any variance(A&&...);
template <class... T, class... A> ::lax::Any stddev(A&&...);
template <class... T, class... A> ::lax::Any rms(A&&...);
template <class... T, class... A> ::lax::Any invert(A&&...);
template <class... T, class... A> ::lax::Any norm(A&&...);
template <class... T, class... A> ::lax::Any indgen(A&&...);
template <class... T, class... A> ::lax::Any partialMedians(A&&...);
template <class... T, class... A> ::lax::Any partialNTrue(A&&...);
template <class... T, class... A> ::lax::Any partialSums(A&&...);
template <class... T, class... A> ::lax::Any sqrt(A&&...);
template <class... T, class... A> ::lax::Any crossProduct(A&&...);
template <class... T, class... A> ::lax::Any dotProduct(A&&...);
template <class... T, class... A> ::lax::Any round(A&&...);
template <class... T, class... A> ::lax::Any reverseArray(A&&...);
template <class... T, class... A> ::lax::Any anyNE(A&&...);
template <class... T, class... A> ::lax::Any allNE(A&&...);
template <class... T, class... A> ::lax::Any allNear(A&&...);
template <class... T, class... A> ::lax::Any anyGT(A&&...);
template <class... T, class... A> ::lax::Any anyLT(A&&...);
template <class... T, class... A> ::lax::Any anyGE(A&&...);
template <class... T, class... A> ::lax::Any anyLE(A&&...);
template <class... T, class... A> ::lax::Any allGE(A&&...);
template <class... T, class... A> ::lax::Any allGT(A&&...);
template <class... T, class... A> ::lax::Any allLE(A&&...);
template <class... T, class... A> ::lax::Any allLT(A&&...);
template <class... T, class... A> ::lax::Any GenSort(A&&...);
template <class... T, class... A> ::lax::Any linearSearch(A&&...);
template <class... T, class... A> ::lax::Any linearSearchBrackets(A&&...);
template <class... T, class... A> ::lax::Any minMax(A&&...);
template <class... T, class... A> ::lax::Any reformArray(A&&...);
template <class... T, class... A> ::lax::Any concatenateArray(A&&...);
template <class... T, class... A> ::lax::Any convertArray2(A&&...);
template <class... T, class... A> ::lax::Any fmod(A&&...);
template <class... T, class... A> ::lax::Any makeComplex(A&&...);
template <class... T, class... A> ::lax::Any binarySearch(A&&...);
template <class... T, class... A> ::lax::Any binarySearchBrackets(A&&...);
template <class... T, class... A> ::lax::Any sqr(A&&...);
template <class... T, class... A> ::lax::Any upcase(A&&...);
template <class... T, class... A> ::lax::Any downcase(A&&...);
template <class... T, class... A> ::lax::Any arrayTransform(A&&...);
}

namespace xt {
template <class... T, class... A> ::lax::Any abs(A&&...);
template <class... T, class... A> ::lax::Any adapt(A&&...);
template <class... T, class... A> ::lax::Any all(A&&...);
template <class... T, class... A> ::lax::Any amax(A&&...);
template <class... T, class... A> ::lax::Any amin(A&&...);
template <class... T, class... A> ::lax::Any any(A&&...);
template <class... T, class... A> ::lax::Any arg(A&&...);
template <class... T, class... A> ::lax::Any argwhere(A&&...);
template <class... T, class... A> ::lax::Any broadcast(A&&...);
template <class... T, class... A> ::lax::Any cast(A&&...);
template <class... T, class... A> ::lax::Any conj(A&&...);
template <class... T, class... A> ::lax::Any empty(A&&...);
template <class... T, class... A> ::lax::Any equal(A&&...);
template <class... T, class... A> ::lax::Any filter(A&&...);
template <class... T, class... A> ::lax::Any filtration(A&&...);
template <class... T, class... A> ::lax::Any flatten(A&&...);
template <class... T, class... A> ::lax::Any flatten_indices(A&&...);
template <class... T, class... A> ::lax::Any flip(A&&...);
template <class... T, class... A> ::lax::Any imag(A&&...);
template <class... T, class... A> ::lax::Any isfinite(A&&...);
template <class... T, class... A> ::lax::Any isnan(A&&...);
template <class... T, class... A> ::lax::Any keep(A&&...);
template <class... T, class... A> ::lax::Any log(A&&...);
template <class... T, class... A> ::lax::Any log10(A&&...);
template <class... T, class... A> ::lax::Any masked_view(A&&...);
template <class... T, class... A> ::lax::Any mean(A&&...);
template <class... T, class... A> ::lax::Any median(A&&...);
template <class... T, class... A> ::lax::Any nansum(A&&...);
template <class... T, class... A> ::lax::Any noalias(A&&...);
template <class... T, class... A> ::lax::Any pow(A&&...);
template <class... T, class... A> ::lax::Any prod(A&&...);
template <class... T, class... A> ::lax::Any range(A&&...);
template <class... T, class... A> ::lax::Any real(A&&...);
template <class... T, class... A> ::lax::Any reshape_view(A&&...);
template <class... T, class... A> ::lax::Any shape(A&&...);
template <class... T, class... A> ::lax::Any sqrt(A&&...);
template <class... T, class... A> ::lax::Any square(A&&...);
template <class... T, class... A> ::lax::Any stddev(A&&...);
template <class... T, class... A> ::lax::Any sum(A&&...);
template <class... T, class... A> ::lax::Any transpose(A&&...);
template <class... T, class... A> ::lax::Any vectorize(A&&...);
template <class... T, class... A> ::lax::Any view(A&&...);
template <class... T, class... A> ::lax::Any where(A&&...);
template <class... T, class... A> ::lax::Any zeros(A&&...);
template <class... T, class... A> ::lax::Any ones(A&&...);
template <class... T, class... A> ::lax::Any zeros_like(A&&...);
template <class... T, class... A> ::lax::Any ones_like(A&&...);
template <class... T, class... A> ::lax::Any norm_l2(A&&...);
template <class... T, class... A> ::lax::Any norm_sq(A&&...);
template <class... T, class... A> ::lax::Any exp(A&&...);
template <class... T, class... A> ::lax::Any cos(A&&...);
template <class... T, class... A> ::lax::Any sin(A&&...);
template <class... T, class... A> ::lax::Any concatenate(A&&...);
template <class... T, class... A> ::lax::Any xtuple(A&&...);
template <class... T, class... A> ::lax::Any stack(A&&...);
template <class... T, class... A> ::lax::Any arange(A&&...);
template <class... T, class... A> ::lax::Any linspace(A&&...);
template <class... T, class... A> ::lax::Any row(A&&...);
template <class... T, class... A> ::lax::Any col(A&&...);
template <class... T, class... A> ::lax::Any strided_view(A&&...);
template <class... T, class... A> ::lax::Any ellipsis(A&&...);
template <class... T, class... A> ::lax::Any swapaxes(A&&...);
template <class... T, class... A> ::lax::Any isclose(A&&...);
template <class... T, class... A> ::lax::Any allclose(A&&...);
template <class... T, class... A> ::lax::Any count_nonzero(A&&...);
template <class... T, class... A> ::lax::Any drop(A&&...);
template <class... T, class... A> ::lax::Any index_view(A&&...);
template <class... T, class... A> ::lax::Any diff(A&&...);
template <class... T, class... A> ::lax::Any cumsum(A&&...);
template <class... T, class... A> ::lax::Any sort(A&&...);
template <class... T, class... A> ::lax::Any argsort(A&&...);
template <class... T, class... A> ::lax::Any unique(A&&...);
template <class... T, class... A> ::lax::Any full_like(A&&...);
template <class... T, class... A> ::lax::Any empty_like(A&&...);
template <class... T, class... A> ::lax::Any squeeze(A&&...);
template <class... T, class... A> ::lax::Any expand_dims(A&&...);
template <class... T, class... A> ::lax::Any fma(A&&...);
template <class... T, class... A> ::lax::Any eval(A&&...);
template <class... T, class... A> ::lax::Any minimum(A&&...);
template <class... T, class... A> ::lax::Any maximum(A&&...);
template <class... T, class... A> ::lax::Any norm(A&&...);
template <class... T, class... A> ::lax::Any variance(A&&...);
template <class... T, class... A> ::lax::Any logical_and(A&&...);
template <class... T, class... A> ::lax::Any logical_or(A&&...);
template <class... T, class... A> ::lax::Any logical_not(A&&...);
template <class... T, class... A> ::lax::Any accumulate(A&&...);
template <class... T, class... A> ::lax::Any quantile(A&&...);
template <class... T, class... A> ::lax::Any percentile(A&&...);
template <class... T, class... A> ::lax::Any argmax(A&&...);
template <class... T, class... A> ::lax::Any argmin(A&&...);
template <class... T, class... A> ::lax::Any eye(A&&...);
template <class... T, class... A> ::lax::Any cross(A&&...);
template <class... T, class... A> ::lax::Any isinf(A&&...);
template <class... T, class... A> ::lax::Any round(A&&...);
template <class... T, class... A> ::lax::Any repeat(A&&...);
template <class... T, class... A> ::lax::Any tile(A&&...);
template <class... T, class... A> ::lax::Any moveaxis(A&&...);
template <class... T, class... A> ::lax::Any dynamic_view(A&&...);
template <class... T, class... A> ::lax::Any dump_npy(A&&...);
template <class... T, class... A> ::lax::Any polar(A&&...);
template <class... T, class... A> ::lax::Any atan2(A&&...);
template <class... T, class... A> ::lax::Any roll(A&&...);
template <class... T, class... A> ::lax::Any clip(A&&...);
template <class... T, class... A> ::lax::Any sign(A&&...);
template <class... T, class... A> ::lax::Any floor(A&&...);
template <class... T, class... A> ::lax::Any ceil(A&&...);
template <class... T, class... A> ::lax::Any nanmean(A&&...);
template <class... T, class... A> ::lax::Any nanstd(A&&...);
}

namespace xt {
namespace linalg {
template <class... T, class... A> ::lax::Any dot(A&&...);
template <class... T, class... A> ::lax::Any norm(A&&...);
template <class... T, class... A> ::lax::Any outer(A&&...);
template <class... T, class... A> ::lax::Any svd(A&&...);
template <class... T, class... A> ::lax::Any inv(A&&...);
template <class... T, class... A> ::lax::Any solve(A&&...);
template <class... T, class... A> ::lax::Any pinv(A&&...);
template <class... T, class... A> ::lax::Any lstsq(A&&...);
template <class... T, class... A> ::lax::Any det(A&&...);
}}

namespace aocommon {
template <class... T, class... A> ::lax::Any StringToLogVerbosityLevel(A&&...);
template <class... T, class... A> ::lax::Any Wavelength(A&&...);
}

namespace aocommon {
namespace system {
template <class... T, class... A> ::lax::Any ProcessorCount(A&&...);
}}

namespace aocommon {
namespace xt {
template <class... T, class... A> ::lax::Any CreateSpan(A&&...);
}}

namespace everybeam {
template <class... T, class... A> ::lax::Any CreateTelescope(A&&...);
template <class... T, class... A> ::lax::Any ElementResponseModelFromString(A&&...);
template <class... T, class... A> ::lax::Any Load(A&&...);
template <class... T, class... A> ::lax::Any ParseBeamMode(A&&...);
template <class... T, class... A> ::lax::Any ReadTileBeamDirection(A&&...);
template <class... T, class... A> ::lax::Any ToString(A&&...);
template <class... T, class... A> ::lax::Any ParseBeamNormalisationMode(A&&...);
template <class... T, class... A> ::lax::Any GetTelescopeType(A&&...);
template <class... T, class... A> ::lax::Any ConvertToString(A&&...);
template <class... T, class... A> ::lax::Any ParseElementResponseModel(A&&...);
}

namespace pybind11 {
template <class... T, class... A> ::lax::Any cast(A&&...);
template <class... T, class... A> ::lax::Any init(A&&...);
template <class... T, class... A> ::lax::Any overload_cast(A&&...);
template <class... T, class... A> ::lax::Any get_override(A&&...);
template <class... T, class... A> ::lax::Any initialize_interpreter(A&&...);
template <class... T, class... A> ::lax::Any keep_alive(A&&...);
template <class... T, class... A> ::lax::Any isinstance(A&&...);
template <class... T, class... A> ::lax::Any print(A&&...);
}

namespace schaapcommon {
namespace reordering {
template <class... T, class... A> ::lax::Any MakeMetaFilesMap(A&&...);
template <class... T, class... A> ::lax::Any MakeRegularChannelMap(A&&...);
}}

namespace ducc0 {
template <class... T, class... A> ::lax::Any ms2dirty(A&&...);
template <class... T, class... A> ::lax::Any dirty2ms(A&&...);
}

using hid_t = long;
using hsize_t = unsigned long long;
using std::string;
using clus_source_t = lax::Any;
using baseline_t = lax::Any;
using elementcoeff = lax::Any;
using exinfo_gaussian = lax::Any;
using exinfo_disk = lax::Any;
using exinfo_ring = lax::Any;
using exinfo_shapelet = lax::Any;
using fitsfile = lax::Any;
enum LaxConst {
  HBA_TILE_SIZE, TDOUBLE, TSTRING, TFLOAT, TINT, TLONG, TLOGICAL, TUSHORT,
  DOBEAM_NONE, DOBEAM_FULL, DOBEAM_ARRAY, DOBEAM_ELEMENT, DOBEAM_FULL_WB,
  DOBEAM_ARRAY_WB, DOBEAM_ELEMENT_WB, STYPE_POINT, STYPE_GAUSSIAN,
  STYPE_SHAPELET, DOUBLE_IMG, FLOAT_IMG, BINARY_TBL, READONLY, READWRITE,
  MAX_SNAME, FLEN_STATUS
};
namespace DP3Version { template <class... A> std::string AsString(A&&...); }
template <class... A> int fits_close_file(A&&...);
template <class... A> int fits_create_file(A&&...);
template <class... A> int fits_create_img(A&&...);
template <class... A> int fits_prefix_(A&&...);
template <class... A> int fits_write_key(A&&...);
template <class... A> int fits_write_pixnull(A&&...);
namespace std {
template <lax::IsAny T, class... A> lax::Any conj(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any norm(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any real(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any imag(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any arg(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any abs(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any sqrt(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any exp(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any log(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any log10(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any pow(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any sin(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any cos(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any atan2(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any fmod(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any floor(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any ceil(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any round(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any isfinite(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any isnan(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any isinf(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any min(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any max(const T&, const A&...);
template <lax::IsAny T> lax::Any to_string(const T&);
}  // namespace std
namespace lax { using std::conj; using std::norm; using std::abs; using std::real; using std::imag; using std::arg; using std::sqrt; using std::isfinite; using std::isnan; }
